"""CSS selectors over elements whose classes may be symbolic; and a little of CSS itself.

A match is True, False or a SymBool.
"""

import re

from .sym import SymBool


class SelectorError(Exception):
    pass


def both(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    return a if b is True else a & b


def either(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    return a if b is False else a | b


def no(a):
    return ~a if isinstance(a, SymBool) else not a


IDENT = r"-?(?:[_a-zA-Z\u0080-\uffff]|\\.)(?:[\w\-\u0080-\uffff]|\\.)*"
_ident = re.compile("(?:--)?" + IDENT + "|" + IDENT)


def unescape(s):
    return re.sub(r"\\([0-9a-fA-F]{1,6}) ?|\\(.)", lambda m: chr(int(m.group(1), 16)) if m.group(1) else m.group(2), s)


class Parser:
    def __init__(self, text):
        self.s, self.i = text, 0

    def ws(self):
        j = self.i
        while self.i < len(self.s) and self.s[self.i] in " \t\r\n\f":
            self.i += 1
        return self.i > j

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else ""

    def fail(self):
        raise SelectorError(self.s)

    def ident(self):
        m = _ident.match(self.s, self.i)
        if not m:
            self.fail()
        self.i = m.end()
        return unescape(m.group(0))

    def list(self, relative=False, end=""):
        out = []
        while True:
            out.append(self.complex(relative))
            self.ws()
            if self.peek() == ",":
                self.i += 1
                continue
            if self.peek() != end:
                self.fail()
            return out

    def complex(self, relative):
        """[(combinator, compound), ...]; the first combinator is '' unless relative."""
        parts = []
        self.ws()
        comb = ""
        if self.peek() and self.peek() in ">+~":
            if not relative:
                self.fail()
            comb = self.peek()
            self.i += 1
            self.ws()
        elif relative:
            comb = " "
        while True:
            parts.append((comb, self.compound()))
            space = self.ws()
            c = self.peek()
            if c and c in ">+~":
                comb = c
                self.i += 1
                self.ws()
            elif not c or c in ",)":
                return parts
            elif space:
                comb = " "
            else:
                self.fail()

    def compound(self):
        tests = []
        start = self.i
        while True:
            c = self.peek()
            if c == "*":
                self.i += 1
                tests.append(("any",))
            elif c == "&":
                self.i += 1
                tests.append(("scope",))
            elif c == ".":
                self.i += 1
                tests.append(("class", self.ident()))
            elif c == "#":
                self.i += 1
                m = re.compile(r"(?:[\w\-\u0080-\uffff]|\\.)+").match(self.s, self.i)
                if not m or m.group(0)[0].isdigit():
                    self.fail()
                self.i = m.end()
                tests.append(("id", unescape(m.group(0))))
            elif c == "[":
                m = re.compile(r"\[\s*([\w\-:]+)\s*(?:([~|^$*]?=)\s*(?:\"([^\"]*)\"|'([^']*)'|([\w\-]+))\s*([iIsS])?\s*)?\]").match(self.s, self.i)
                if not m:
                    self.fail()
                self.i = m.end()
                val = next((g for g in m.groups()[2:5] if g is not None), None)
                tests.append(("attr", m.group(1), m.group(2), val))
            elif c == ":":
                self.i += 1
                elem = self.peek() == ":"
                if elem:
                    self.i += 1
                name = self.ident().lower()
                if elem or name in ("before", "after"):
                    tests.append(("never",))
                    continue
                if self.peek() == "(":
                    self.i += 1
                    if name in ("not", "is", "where", "matches"):
                        tests.append((name if name == "not" else "is", self.list(end=")")))
                        self.i += 1
                    elif name == "has":
                        tests.append(("has", self.list(relative=True, end=")")))
                        self.i += 1
                    else:
                        j = self.s.find(")", self.i)
                        if j < 0:
                            self.fail()
                        tests.append(("nth", name, self.s[self.i:j].strip()))
                        self.i = j + 1
                else:
                    tests.append(("pseudo", name))
            elif c and (_ident.match(self.s, self.i)):
                if self.i != start:
                    self.fail()
                tests.append(("tag", self.ident().lower()))
            else:
                break
        if not tests:
            self.fail()
        return tests


_cache = {}


def parse(text):
    if text not in _cache:
        p = Parser(text.strip())
        _cache[text] = p.list()
    return _cache[text]


def nth(formula, k):
    f = formula.replace(" ", "").lower()
    f = {"odd": "2n+1", "even": "2n"}.get(f, f)
    m = re.fullmatch(r"([+-]?\d*)n([+-]\d+)?|([+-]?\d+)", f)
    if not m:
        raise SelectorError(formula)
    if m.group(3):
        return k == int(m.group(3))
    a = {"": 1, "+": 1, "-": -1}.get(m.group(1))
    a = int(m.group(1)) if a is None else a
    b = int(m.group(2) or 0)
    return (k - b) * a >= 0 and (k - b) % a == 0 if a else k == b


def test(el, t, scope):
    kind = t[0]
    if kind == "any":
        return True
    if kind == "never":
        return False
    if kind == "tag":
        return el.tag == t[1]
    if kind == "class":
        return el.classes.get(t[1], False)
    if kind == "id":
        return el.attrs.get("id") == t[1]
    if kind == "scope":
        return el is scope
    if kind == "attr":
        _, name, op, val = t
        if name == "class" and op is not None:
            have = el.class_name()
        else:
            have = el.attr(name)
        if have is None:
            return False
        if op is None:
            return True
        return {"=": lambda: have == val, "~=": lambda: val in have.split(), "^=": lambda: bool(val) and have.startswith(val),
                "$=": lambda: bool(val) and have.endswith(val), "*=": lambda: bool(val) and val in have,
                "|=": lambda: have == val or have.startswith(val + "-")}[op]()
    if kind == "not":
        return no(match_list(el, t[1], scope))
    if kind == "is":
        return match_list(el, t[1], scope)
    if kind == "has":
        r = False
        for rel in t[1]:
            r = either(r, has(el, rel, scope))
            if r is True:
                break
        return r
    sibs = [c for c in el.parent.elements()] if el.parent is not None else [el]
    if kind == "nth":
        _, name, f = t
        if name.endswith("of-type"):
            sibs = [c for c in sibs if c.tag == el.tag]
        k = sibs.index(el) + 1
        if "last" in name:
            k = len(sibs) - k + 1
        if not name.startswith("nth"):
            raise SelectorError(name)
        return nth(f, k)
    name = t[1]
    same = [c for c in sibs if c.tag == el.tag]
    if name in ("scope",):
        return el is scope
    if name == "root":
        return el.parent is None or not hasattr(el.parent, "tag")
    if name == "first-child":
        return sibs[0] is el
    if name == "last-child":
        return sibs[-1] is el
    if name == "only-child":
        return len(sibs) == 1
    if name == "first-of-type":
        return same[0] is el
    if name == "last-of-type":
        return same[-1] is el
    if name == "only-of-type":
        return len(same) == 1
    if name == "empty":
        return not el.kids
    if name in ("hover", "active", "focus", "focus-within", "focus-visible"):
        return el.state(name)
    if name in ("disabled", "enabled", "checked"):
        d = name in el.attrs if name != "enabled" else "disabled" not in el.attrs
        return d
    if name in ("link", "any-link"):
        return el.tag == "a" and "href" in el.attrs
    if name in ("visited", "target"):
        return False
    raise SelectorError(name)


def match_compound(el, tests, scope):
    r = True
    for t in tests:
        r = both(r, test(el, t, scope))
        if r is False:
            break
    return r


def match_complex(el, parts, scope, i=None):
    """parts[:i+1] matches with el at part i."""
    if i is None:
        i = len(parts) - 1
    comb, compound = parts[i]
    r = match_compound(el, compound, scope)
    if r is False or i == 0:
        return r
    return both(r, before(el, parts, scope, i, comb))


def before(el, parts, scope, i, comb):
    if comb == ">":
        p = el.parent
        return match_complex(p, parts, scope, i - 1) if p is not None and hasattr(p, "tag") else False
    if comb == " ":
        r, p = False, el.parent
        while p is not None and hasattr(p, "tag"):
            r = either(r, match_complex(p, parts, scope, i - 1))
            if r is True:
                break
            p = p.parent
        return r
    sibs = el.parent.elements() if el.parent is not None else [el]
    k = sibs.index(el)
    if comb == "+":
        return match_complex(sibs[k - 1], parts, scope, i - 1) if k else False
    r = False
    for s in sibs[:k]:
        r = either(r, match_complex(s, parts, scope, i - 1))
    return r


def has(el, rel, scope):
    """el:has(rel): candidates matched from the anchor outwards."""
    def step(anchors, i):
        # anchors: [(element, condition)]
        if i == len(rel):
            r = False
            for _, c in anchors:
                r = either(r, c)
            return r
        comb, compound = rel[i]
        out = []
        for a, c in anchors:
            if comb == ">":
                cand = a.elements()
            elif comb == " ":
                cand = list(a.descendants())
            else:
                sibs = a.parent.elements() if a.parent is not None else [a]
                k = sibs.index(a)
                cand = sibs[k + 1:k + 2] if comb == "+" else sibs[k + 1:]
            for e in cand:
                m = both(c, match_compound(e, compound, scope))
                if m is not False:
                    out.append((e, m))
        return step(out, i + 1) if out else False
    return step([(el, True)], 0)


def match_list(el, sels, scope):
    r = False
    for parts in sels:
        r = either(r, match_complex(el, parts, scope))
        if r is True:
            break
    return r


def specificity(parts):
    a = b = c = 0
    for _, comp in parts:
        for t in comp:
            if t[0] == "id":
                a += 1
            elif t[0] in ("class", "attr", "pseudo", "nth"):
                b += 1
            elif t[0] == "tag":
                c += 1
            elif t[0] in ("is", "not", "has"):
                x = max((specificity(s) for s in t[1]), default=(0, 0, 0))
                a, b, c = a + x[0], b + x[1], c + x[2]
    return (a, b, c)


def rules(css, prop):
    """The declarations of a property: [(selectors, value, important)], in order; nested rules unfolded."""
    css = re.sub(r"/\*.*?\*/", " ", css, flags=re.S)
    out = []

    def combine(parents, text):
        sels = split(text)
        if parents is None:
            return sels
        res = []
        for s in sels:
            for p in parents:
                if "&" in s:
                    res.append(s.replace("&", p))
                elif s[:1] in ">+~":
                    res.append(p + " " + s)
                else:
                    res.append(p + " " + s)
        return res

    def split(t):
        parts, depth, cur = [], 0, ""
        for ch in t:
            depth += (ch in "([") - (ch in ")]")
            if ch == "," and not depth:
                parts.append(cur.strip())
                cur = ""
            else:
                cur += ch
        return [p for p in parts + [cur.strip()] if p]

    def block(i, sel, live):
        buf = ""
        while i < len(css):
            ch = css[i]
            if ch == "{":
                head = buf.strip()
                buf = ""
                if head.startswith("@"):
                    i = block(i + 1, sel, live and head.startswith("@layer"))
                else:
                    i = block(i + 1, combine(sel, head), live)
                continue
            if ch in ";}":
                m = re.fullmatch(r"\s*([\w-]+)\s*:\s*(.*?)\s*(!\s*important)?\s*", buf, re.S)
                if m and m.group(1).lower() == prop and sel and live:
                    for s in sel:
                        try:
                            for parts in parse(s):
                                out.append((parts, m.group(2), bool(m.group(3)), s))
                        except SelectorError:
                            pass
                buf = ""
                if ch == "}":
                    return i + 1
                i += 1
                continue
            buf += ch
            i += 1
        return i

    i = 0
    while i < len(css):
        i = block(i, None, True)
    out = [(p, v, imp, specificity(p), k, s) for k, (p, v, imp, s) in enumerate(out)]
    out.sort(key=lambda r: (r[2], r[3], r[4]), reverse=True)
    return out
