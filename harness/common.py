"""Shared by all harnesses."""

import logging
import warnings

warnings.simplefilter("ignore")

import rsm
from rsm import app, nodes, transformer, translator, tsparser
from oracle import html as H

LETTERS = "abcdefghijklmnopqrstuvwxyz"
ALNUM = LETTERS + "0123456789"


class Capture(logging.Handler):
    """Collects every record the RSM loggers emit."""

    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage(), record))

    def messages(self, level=None):
        return [m for l, m, _ in self.records if level is None or l == level]


def with_capture(fn, level=logging.WARNING):
    """Run fn() with RSM records of at least `level` captured."""
    log = logging.getLogger("RSM")
    cap = Capture()
    old = log.level
    log.setLevel(level)
    log.addHandler(cap)
    try:
        return fn(), cap
    finally:
        log.removeHandler(cap)
        log.setLevel(old)


def to_ast(src):
    return tsparser.TSParser().parse(src)


def to_tree(src):
    """Source -> transformed manuscript tree."""
    return transformer.Transformer().transform(to_ast(src))


def to_html(tree, handrails=False, add_source=False):
    if handrails:
        return translator.HandrailsTranslator(quiet=True, add_source=add_source).translate(tree)
    return translator.Translator(quiet=True).translate(tree)


def parse_html(ctx, html):
    try:
        return H.parse(html)
    except H.Malformed as m:
        ctx.fail(f"malformed HTML: {m}")


def by_id(root, label):
    """Elements whose id equals label (symbolic comparison)."""
    return [e for e in root.iter() if e.get("id") is not None and e.get("id") == label]


def eq_norm(a, b):
    return H.norm(a) == H.norm(b)


norm = H.norm


def events(root):
    """The document as a flat list of ('text', str) / ('open', elem) / ('close', elem)."""
    out, stack = [], [("open", root)]
    while stack:
        k, v = stack.pop()
        out.append((k, v))
        if k == "open":
            stack.append(("close", v))
            for c in reversed(v.children):
                stack.append(("text", c) if isinstance(c, str) else ("open", c))
    return out


def between(root, start, end):
    """(text, elements) found strictly between two marker words."""
    text, elems, on = "", [], False
    for k, v in events(root):
        if k == "text":
            if not on and start in v:
                on = True
                v = v.split(start, 1)[1]
            if on:
                if end in v:
                    return text + v.split(end, 1)[0], elems
                text += v
        elif on and k == "open":
            elems.append(v)
    return None, elems


def cls_has(e, name):
    return name in e.classes


def dup_ids(root, ignore=("gradient-mask",)):
    """Ids occurring twice; the one pinned by RSM's own tests is a known finding of C01."""
    ids = [e.get("id") for e in root.iter() if e.get("id") and e.get("id") not in ignore]
    return [x for i, x in enumerate(ids) for y in ids[:i] if x == y]


CHROME = {"hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone", "hr-info-zone",
          "float-minimap-wrapper", "minimap", "rsm-source"}


def is_chrome(e):
    return any(c in CHROME for c in e.classes)


def content_events(root):
    """Like events(), without what handrails add around the content."""
    out, stack = [], [("open", root)]
    while stack:
        k, v = stack.pop()
        if k == "open" and is_chrome(v):
            continue
        out.append((k, v))
        if k == "open":
            stack.append(("close", v))
            for c in reversed(v.children):
                stack.append(("text", c) if isinstance(c, str) else ("open", c))
    return out


def content_text(root):
    """Text of an element without the text of handrail zones."""
    return "".join(v for k, v in content_events(root) if k == "text")
