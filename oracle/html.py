"""A strict HTML fragment parser, written for the checks (no dependency on rsm).

Every start tag must be closed by its own end tag, in order; attribute values are quoted
or bare words; an attribute may not repeat; `<`, `>` and quotes may not appear unescaped
where they would change the structure.  This module is not instrumented: harnesses keep
symbolic characters out of the HTML-significant set, so native string operations on them
are exact.
"""

import re

VOID = {"img", "br", "hr", "input", "meta", "link"}
NAME = re.compile(r"[A-Za-z][A-Za-z0-9-]*")
ATTR = re.compile(
    r"""\s+([A-Za-z_:][-A-Za-z0-9_:.]*)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s"'=<>`]+)))?"""
)


class Malformed(Exception):
    pass


class Elem:
    __slots__ = ("tag", "attrs", "children", "parent", "pos")

    def __init__(self, tag, attrs, parent, pos):
        self.tag, self.attrs, self.parent, self.pos = tag, attrs, parent, pos
        self.children = []

    def get(self, name, default=None):
        for k, v in self.attrs:
            if k == name:
                return v
        return default

    @property
    def classes(self):
        return (self.get("class") or "").split()

    def iter(self):
        """Elements in document order, self included."""
        stack = [self]
        while stack:
            e = stack.pop()
            yield e
            stack.extend(c for c in reversed(e.children) if isinstance(c, Elem))

    def text(self):
        out, stack = [], [self]
        while stack:
            e = stack.pop()
            if isinstance(e, str):
                out.append(e)
            else:
                stack.extend(reversed(e.children))
        return "".join(out)

    def own_text(self):
        return "".join(c for c in self.children if isinstance(c, str))

    def elems(self):
        return [c for c in self.children if isinstance(c, Elem)]

    def find_all(self, tag=None, cls=None):
        return [
            e
            for e in self.iter()
            if (tag is None or e.tag == tag) and (cls is None or cls in e.classes)
        ]

    def ancestors(self):
        p = self.parent
        while p is not None:
            yield p
            p = p.parent

    def __repr__(self):
        return f"<{self.tag} {self.attrs}>"


def norm(s):
    """Whitespace runs collapsed, ends stripped."""
    return " ".join(s.split())


ENTITIES = [("&lt;", "<"), ("&gt;", ">"), ("&quot;", '"'), ("&#39;", "'"), ("&#x27;", "'"),
            ("&amp;", "&")]


def decode(text):
    """Character references that an HTML escaper produces."""
    if "&" in text:
        for a, b in ENTITIES:
            text = text.replace(a, b)
    return text


def parse(html):
    root = Elem("#root", [], None, 0)
    cur = root
    i, n = 0, len(html)
    while i < n:
        j = html.find("<", i)
        if j < 0:
            j = n
        if j > i:
            text = html[i:j]
            if ">" in text:
                raise Malformed(f"stray '>' near {html[max(0, i - 40):j][:120]!r}")
            cur.children.append(decode(text))
            i = j
            continue
        if html.startswith("</", i):
            m = NAME.match(html, i + 2)
            if not m or not html.startswith(">", m.end()):
                raise Malformed(f"bad end tag near {html[i:i + 60]!r}")
            tag = m.group().lower()
            if cur.tag != tag:
                raise Malformed(
                    f"</{tag}> closes <{cur.tag}> near {html[max(0, i - 60):i + 20]!r}"
                )
            cur = cur.parent
            i = m.end() + 1
            continue
        m = NAME.match(html, i + 1)
        if not m:
            raise Malformed(f"stray '<' near {html[max(0, i - 20):i + 60]!r}")
        tag = m.group()
        k = m.end()
        attrs, seen = [], set()
        while True:
            a = ATTR.match(html, k)
            if not a:
                break
            name = a.group(1)
            val = next((g for g in a.groups()[1:] if g is not None), "")
            if name in seen:
                raise Malformed(f"attribute {name} repeated in <{tag}>")
            seen.add(name)
            if "<" in val:
                raise Malformed(f"'<' in attribute {name} of <{tag}>")
            attrs.append((name, val))
            k = a.end()
        rest = re.compile(r"\s*(/?)>").match(html, k)
        if not rest:
            raise Malformed(f"bad start tag near {html[i:i + 80]!r}")
        e = Elem(tag.lower(), attrs, cur, i)
        cur.children.append(e)
        i = rest.end()
        if not rest.group(1) and tag.lower() not in VOID:
            cur = e
    if cur is not root:
        raise Malformed(f"<{cur.tag}> is never closed")
    return root
