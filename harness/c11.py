"""C11: the linter reports exactly the faults present, where they are."""

from rsm import linter

from .common import *

ASSUMPTIONS = [
    "sections whose label is taken by an earlier node, displayed math with :isclaim:, and comments "
    "before the manuscript are not used (whether or where they count as faults is not documented)",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]


class Doc:
    """Source text under construction, with the faults at their positions."""

    def __init__(self):
        self.src, self.row, self.col, self.faults = "", 1, 1, []

    def add(self, text):
        self.src += text
        for c in text:
            if c == "\n":
                self.row, self.col = self.row + 1, 1
            else:
                self.col += 1
        return self

    def fault(self, kind):
        self.faults.append((kind, self.row, self.col))
        return self


MATH = "$$\nx\n$$\n\n"


def heading(level, label, nonum=False):
    def f(d, ind, w):
        d.add(ind)
        if not label:
            d.fault("label")
        d.add("#" * level + f" {w}\n")
        if nonum:
            d.add(ind + "  :nonum:\n")
        if label:
            d.add(ind + f"  :label: l{d.row}{w}\n")
        d.add(f"\n{ind}Body.\n\n")

    return f


def math(before, after="", bad=True, tag="$$"):
    def f(d, ind, w):
        for line in before.replace("WW", w).splitlines(True):
            d.add(ind + line if line != "\n" else line)
        if not before or before.endswith("\n"):
            d.add(ind)
        if bad:
            d.fault("math")
        if tag == "$$":
            d.add(f"$$\n{ind}{w}\n{ind}$$\n\n")
        elif tag == "short":
            d.add(f":mathblock: {w} ::\n\n")
        else:
            d.add(f":mathblock:\n\n{ind}{w}\n\n{ind}::\n\n")
        d.add(after)

    return f


END = "::\n\n"
ELEMENTS = {
    "sec": heading(2, False), "sec+": heading(2, True),
    "sub": heading(3, False), "sub+": heading(3, True),
    "ssub": heading(4, False), "ssub+": heading(4, True),
    "nsec": heading(2, False, True), "nsec+": heading(2, True, True),
    "top": math(""), "tag": math("", tag="tag"), "short": math("", tag="short"),
    "para": math("Foo WW\n", bad=False), "paramid": math("Foo WW ", bad=False),
    "thm": math(":theorem:\n\n", END), "thmpara": math(":theorem:\n\nA WW\n", END, bad=False),
    "def": math(":definition:\n  :label: q\n\nWW.\n\n", END),
    "proof": math(":proof:\n\n", ":step: b ::\n\n" + END),
    "step": math(":proof:\n\n:step:\n\n", END * 2),
    "step2": math(":proof:\n\n:step: WW.\n\n:step: foo WW ::\n\n", END * 2),
    "steppara": math(":proof:\n\n:step: A WW\n", END * 2, bad=False),
    "subproof": math(":proof:\n\n:step: A\n\n:p:\n\n", ":step: b ::\n\n" + END * 3),
    "item": math(":itemize:\n\n:item:\n", END), "itemtext": math(":itemize:\n\n:item: WW x\n", END),
    "itemline": math(":enumerate:\n\n:item: WW a ", END),
    "abstract": math(":abstract:\n\n", END), "abspara": math(":abstract:\n\nWW.\n", END, bad=False),
    "sketch": math(":sketch:\n\n", END),
    "caption": math(":figure:\n  :path: f.png\n\n:caption: WW\n", END, bad=False),
    "text": lambda d, ind, w: d.add(f"{ind}Just {w} $x$ text.\n\n"),
}
NEEDS = {"sub": 1, "sub+": 1, "ssub": 2, "ssub+": 2}


def faults(ctx):
    """Any sequence of faulty and proper elements, any layout."""
    d = Doc()
    d.add(ctx.oneof("lead", ctx.params["leads"]))
    title = ctx.flag("title")
    if not title:
        d.fault("title")
    d.add(":rsm:\n" + (f"  :title: {ctx.char('t', LETTERS)}t\n" if title else "") + "\nHi.\n\n")
    depth = 0
    for i in range(ctx.params["n"]):
        if i and d.faults and i >= ctx.params["short"]:
            opts = ctx.params["few"]
        else:
            opts = list(ELEMENTS)
        k = ctx.oneof(f"e{i}", [e for e in opts if NEEDS.get(e, 0) <= depth])
        if "sec" in k:
            depth = 1
        elif "sub" in k:
            depth = NEEDS[k] + 1 if k != "subproof" else depth
        ind = ctx.oneof(f"i{i}", ctx.params["indents"])
        w = ctx.char(f"w{i}", LETTERS) + f"é—𝔸q{i}"
        if k == "def" and ":label: q\n" in d.src:
            k = "thm"
        ELEMENTS[k](d, ind, w)
    d.add("::\n")
    check(ctx, d)


def long(ctx):
    """Longer manuscripts of few kinds of elements."""
    d = Doc()
    d.add(":rsm:\n  :title: t\n\nHi.\n\n")
    kinds = ctx.oneof("kinds", [["sec", "sec+", "top"], ["para", "top", "thm"], ["itemline", "sec", "nsec"], ["text", "short", "thmpara"]])
    for i in range(ctx.params["n"]):
        ELEMENTS[ctx.oneof(f"e{i}", kinds)](d, "", f"w{i}")
    d.add("::\n")
    check(ctx, d)


def check(ctx, d):
    tree = to_tree(d.src)
    before = tree.sexp(meta=True)
    log = logging.getLogger("RSM")
    lin = linter.Linter()
    level = log.level
    try:
        res, cap = with_capture(lambda: lin.lint(tree), level=logging.INFO)
    finally:
        log.setLevel(level)
    got = []
    for lvl, msg, rec in cap.records:
        if lvl < linter.Linter.LINT_LVL:
            continue
        ctx.check(lvl == linter.Linter.LINT_LVL, "a fault is not reported at the level of the linter")
        low = msg.lower()
        kind = "title" if "title" in low else "label" if "label" in low else "math" if "math" in low else "?"
        got.append((kind, getattr(rec, "start_row", None), getattr(rec, "start_col", None)))
    ctx.check(sorted(got) == sorted(d.faults), f"reported {sorted(got)}, present {sorted(d.faults)}")
    ctx.check(res is tree and tree.sexp(meta=True) == before, "the linter changed the manuscript")
    hr = False
    html = to_html(tree, hr)
    ctx.observe(html)
    ctx.check(html == to_html(to_tree(d.src), hr), "the linter changed the rendering")
    ctx.done()


CHARS = LETTERS + "7.,(=@"
WIDE = ["é", "—", "𝔸", "ß\u0301"]


def columns(ctx):
    """Any characters before the fault on its line."""
    d = Doc()
    d.add(ctx.oneof("lead", ["", "\n\n  ", "    "]) + ":rsm:\n  :title: é\n\nHé.\n\n")
    if ctx.flag("indent"):
        d.add("  ")
    d.add(":itemize:\n\n" + " " * ctx.int("sp", 0, 2).__index__() + ":item: a")
    for k in range(ctx.params["n"]):
        d.add(ctx.char(f"c{k}", CHARS) if ctx.flag(f"k{k}") else ctx.oneof(f"o{k}", WIDE))
    d.add(" ")
    d.fault("math").add("$$\nx\n$$\n\n:item: x\n\n::\n\n")
    d.fault("label").add(f"## S{ctx.char('s', CHARS)}\n\nB.\n\n::\n")
    check(ctx, d)


HARNESSES = [
    dict(fn=faults, params={"n": 2, "short": 1, "few": ["sec", "sub", "nsec+", "thm", "top", "itemline", "para", "text"],
                            "leads": ["", "\n\n  "], "indents": ["", "  "]},
         thorough={"n": 3, "short": 2, "few": list(ELEMENTS), "leads": ["", "\n\n  "], "indents": ["", "  "]},
         witness_rate=0.05, budget={"quick": 60, "thorough": 1500},
         bounds="manuscripts of 2 (thorough 3) elements, 27 kinds, with or without title, 2 leads, 2 indentations"),
    dict(fn=columns, params={"n": 2}, thorough={"n": 3}, witness_rate=0.05,
         bounds="faults after 2 (thorough 3) symbolic characters on their line"),
    dict(fn=long, params={"n": 6}, thorough={"n": 8}, witness_rate=0.02, budget={"quick": 60, "thorough": 600},
         bounds="all sequences of 6 (thorough 8) elements of 3 kinds, 4 choices of these"),
]
