"""C08: documented constructs always render, with everything in them."""

from .common import *
from . import frag as F

ASSUMPTIONS = [
    "manuscripts are built from the documented constructs that the grammar accepts; a table of "
    "contents stands after some other block, as the grammar wants it",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]


def lit(src, words):
    """A piece with fixed source; @1, @2, ... are its marker words."""

    def f(w):
        ws = [w() for _ in range(words)]
        s = src
        for i in range(words, 0, -1):
            s = s.replace(f"@{i}", ws[i - 1])
        return s, ws

    return f


def words_of(exp):
    out = []
    for x in exp:
        if isinstance(x, list):
            out += words_of(x[1:])
        else:
            for t in x.split():
                t = t.strip("[]$.,:()=\\")
                if "q" in t and t.startswith("w") and t not in out:
                    out.append(t)
    return out


def block(name, inl=None):
    def f(w):
        s, e = F.BLOCKS[name](w, inl) if inl else F.BLOCKS[name](w)
        return s, words_of(e)

    return f


PIECES = {n: block(n) for n in F.BLOCKS}
for _i in F.INLINES:
    PIECES["i_" + _i] = block("para", F.inline(_i))
for _c in F.CONSTRUCTS + ["suppose", "wlog"]:
    if _c != "qed":
        PIECES["c_" + _c] = lit(f"@1 :{_c}: @2 :: @3.\n\n", 3)
        PIECES["d_" + _c] = lit(f":{_c}: $@1$ :: @2.\n\n", 2)
PIECES.update({
    "author": lit(":author:\n  :name: @1\n  :affiliation: @2\n  :email: @3@x.y\n::\n\n", 3),
    "author0": lit(":author:\n  :name: @1\n::\n\n", 1),
    "author1": lit(":author:\n  :affiliation: @1\n::\n\n", 1),
    "author2": lit(":author:\n  :email: @1@x.y\n::\n\n", 1),
    "authorlab": lit("@1\n\n:author:\n  :label: autl\n::\n\n", 1),
    "isclaim": lit("@1\n\n:mathblock:\n  :isclaim:\n\n@2\n\n::\n\n", 2),
    "abstract": lit(":abstract:\n  :keywords: {@2, @3}\n  :msc: {@4, 05C50}\n\n@1\n\n::\n\n", 4),
    "abstract0": lit(":abstract:\n\n@1\n\n::\n\n", 1),
    "toc": lit("@1\n\n:toc:\n\n", 1),
    "section": lit("## @1\n\n@2\n\n", 2),
    "sections": lit("## @1\n\n@2\n\n### @3\n\n@4\n\n#### @5\n\n@6\n\n", 6),
    "emptysec": lit("## @1\n\n### @2\n\n", 2),
    "nonumsec": lit("## @1\n  :nonum:\n\n@2\n\n", 2),
    "appendix": lit(":appendix:\n\n## @1\n\n@2\n\n", 2),
    "qed": lit(":proof:\n\n:step: @1 ::\n\n:qed:\n\n::\n\n", 1),
    "prevs": lit(":proof:\n\n:step: @1 ::\n\n:step: @2 :prev: @3 ::\n\n:step: @4 :prev2: :prev: @5 ::\n\n"
                 ":step: also :previous:3:: @6 ::\n\n::\n\n", 6),
    "deepproof": lit(":proof:\n\n:step: @1\n\n:p:\n\n:step: @2\n\n:p:\n\n:step: @3 ::\n\n::\n\n::\n\n:step: @4 ::\n\n::"
                     "\n\n::\n\n:step: @5 ::\n\n::\n\n", 5),
    "emptyproof": lit(":proof:\n\n@1\n\n::\n\n", 1),
    "unknownref": lit("@1 :ref:nix:: @2.\n\n", 2),
    "unknowncite": lit("@1 :cite:nix:: @2 :cite:nix,bkey:: @3.\n\n", 3),
    "cites": lit("@1 :cite:bkey:: @2 :cite:bkey,bkey:: @3.\n\n", 3),
    "labels": lit(":theorem:\n  :label: lab1\n\n@1\n\n::\n\n:lemma:\n  :label: lab1\n\n@2\n\n::\n\n@3 :ref:lab1:: @4.\n\n", 4),
    "fences": lit("```\n@1 = 1\n```\n\n", 1),
    "fencelang": lit(":codeblock:\n  :lang: python\n\n@1 = 1\n\n::\n\n", 1),
    "codelang": lit("@1 :code: {:lang: python} @2 :: @3.\n\n", 3),
    "nolang": lit("@1 :code: {:lang: nosuch} @2 :: @3.\n\n", 3),
    "fencenolang": lit(":codeblock:\n  :lang: nosuch\n\n@1 = 1\n\n::\n\n", 1),
    "mathtag": lit(":mathblock:\n  :label: mtl\n\n@1\n\n::\n\n", 1),
    "video": lit(":figure:\n  :path: foo.png\n  :scale: 0.5\n  :label: figl\n\n  :caption: @1\n\n::\n\n", 1),
    "nocaption": lit("@1\n\n:figure:\n  :path: foo.png\n\n::\n\n", 1),
    "nocaptab": lit(":table:\n\n:tbody:\n\n:tr: @1 : @2 ::\n\n:tr: @3 : @4 ::\n\n::\n\n::\n\n", 4),
    "comment": lit("@1 % nothing here\n@2\n\n% nor here\n\n@3\n\n", 3),
    "span": lit("@1 :span: {:strong:, :emphas:} @2:: @3\n\n", 3),
    "itemref": lit(":itemize:\n\n  :item: @1 :ref:base:: @2\n\n  :item: @3 :ref:base,@4:: @5\n\n::\n\n", 5),
    "enumref": lit(":enumerate:\n\n  :item: @1 :url:http://x.y,@2:: @3 :cite:bkey::\n\n::\n\n", 3),
    "titled": lit(":theorem:\n  :title: @1\n  :types: foo, bar\n\n@2\n\n::\n\n", 2),
    "reftext": lit(":theorem:\n  :reftext: Rt\n  :label: rtl\n\n@1 :ref:rtl::\n\n::\n\n", 1),
    "sketch2": lit(":sketch:\n\n@1\n$$\n@2\n$$\n\n::\n\n", 2),
    "itemsmath": lit(":enumerate:\n\n  :item: $@1$\n\n  :item: *@2* @3\n$$\n@4\n$$\n@5\n\n::\n\n", 5),
    "mathdot": lit("@1 $@2$. @3 $@4$.\n\n", 4),
    "note2": lit("@1 :note: @2:: @3 :note: @4::\n\n", 4),
    "claimin": lit(":proof:\n\n:step: :claim: @1 ::. ::\n\n:step: :suffices: @2 ::\n\n:p:\n\n:step: :let: $@3$ ::. ::\n\n::\n\n::\n\n::\n\n", 3),
})
BAD = {"unknownref", "unknowncite"}
# highlighted by pygments, which is not instrumented: the page of a symbolic run is not exact
OPAQUE = {n for n in PIECES if n in ("fences", "fencelang", "codelang", "nolang", "fencenolang")}
# one representative of the many constructs with a name but no behaviour of their own
FEW = [n for n in PIECES if n[:2] not in ("c_", "d_") or n in ("c_let", "d_assume", "c_claim", "d_suppose", "c_wlog")]


def full_text(root):
    """All words of the page, titles and captions included."""
    body = [e for e in root.iter() if e.tag == "body"]
    t = content_text(body[0] if body else root)
    # what the handrails move to the side is content too
    return t


def check(ctx, src, words, names, what):
    errors = any(n in BAD for n in names)
    hr = ctx.flag("hr")
    html = rsm.render(source=src, handrails=hr)
    ctx.check(bool(html), f"{what}: nothing is rendered")
    if not any(n in OPAQUE for n in names):
        ctx.observe(html)
    root = parse_html(ctx, html)
    bad = [e for e in root.iter() if "error" in e.classes]
    if not errors:
        ctx.check(not bad, f"{what}: rendered as an error")
    t = full_text(root)
    ctx.check("CST error" not in t, f"{what}: rendered as an error")
    pos = 0
    for x in words:
        i = t.find(x, pos)
        ctx.check(i >= 0, f"{what}: text is lost or out of order")
        pos = i + len(x)
    ctx.done()


def compose(ctx, names, w, extra=""):
    src, words = "", []
    for n in names:
        s, ws = PIECES[n](w)
        src += s
        words += ws
    return F.manuscript(src), [x for x in words]


def ordered(names, words):
    return words


# pieces whose words are shown in another order than written (keywords after the text)
def singles(ctx):
    """Every construct alone."""
    w = F.Words(ctx.char("m", "aZé"))
    n = ctx.oneof("a", list(PIECES))
    src, words = compose(ctx, [n], w)
    check(ctx, src, words, [n], n)


def pairs(ctx):
    """Every construct next to every other."""
    w = F.Words("")
    a = ctx.oneof("a", [n for n in PIECES if n in ctx.params["of"]])
    b = ctx.oneof("b", [n for n in PIECES if n in ctx.params["of"]])
    w.mid = ctx.char("m", "aZ")
    if a in TOCS and b in TOCS or a == b == "appendix":
        ctx.stop()
    src, words = compose(ctx, [a, b], w)
    check(ctx, src, words, [a, b], f"{a}, {b}")


TOCS = ("toc",)
CORE = ["theorem", "deepproof", "sections", "nonumsec", "appendix", "toc", "mathtwo", "cites",
        "labels", "nocaptab", "abstract", "itemref"]


def rows(ctx):
    """Several constructs in a row, in any order."""
    w = F.Words("")
    names = []
    for k in range(ctx.params["n"]):
        names.append(ctx.oneof(f"a{k}", CORE))
    w.mid = ctx.char("m", "aZ")
    if "toc" in names[1:] or names.count("appendix") > 1:
        ctx.stop()  # the table of contents stands at the top
    src, words = compose(ctx, names, w)
    check(ctx, src, words, names, " ".join(names))


def repeated(ctx):
    """One construct, or two in turn, many times."""
    w = F.Words(ctx.char("m", "aZ"))
    a = ctx.oneof("a", [n for n in ctx.params["of"] if n not in TOCS and n != "appendix"])
    b = ctx.oneof("b", [a, "para", "theorem"])
    k = ctx.oneof("k", ctx.params["times"])
    names = [a if i % 2 else b for i in range(k)]
    src, words = compose(ctx, names, w)
    check(ctx, src, words, names, f"{k} times {a}, {b}")


def nested(ctx):
    """Every construct inside every block that can hold it."""
    w = F.Words(ctx.char("m", "aZ"))
    outer = ctx.oneof("outer", F.OUTER)
    n = ctx.oneof("a", INSIDE)
    s, ws = PIECES[n](w)
    got = F.BLOCKS[outer](w, blk=lambda w, inl: (s, []))
    b = ctx.oneof("b", ["para", "mathalone", "theorem"])
    s2, ws2 = PIECES[b](w)
    check(ctx, F.manuscript(got[0] + s2), ws + ws2, [n], f"{n} in {outer}, {b}")


INSIDE = [n for n in PIECES if n not in ("section", "sections", "emptysec", "nonumsec", "appendix",
                                         "toc", "abstract", "abstract0") and not n.startswith("author")]

HARNESSES = [
    dict(fn=singles, batch=8, witness_rate=0.05, bounds=f"each of {len(PIECES)} constructs"),
    dict(fn=pairs, batch=8, params={"of": FEW}, thorough={"of": list(PIECES)}, witness_rate=0.02, budget={"quick": 160, "thorough": 600},
         bounds=f"all pairs of {len(FEW)} (thorough {len(PIECES)}) constructs"),
    dict(fn=rows, params={"n": 3}, thorough={"n": 4}, batch=8, witness_rate=0.02,
         budget={"quick": 60, "thorough": 900},
         bounds=f"all sequences of 3 (thorough 4) of {len(CORE)} constructs"),
    dict(fn=nested, batch=8, witness_rate=0.02, budget={"quick": 60, "thorough": 300},
         bounds=f"{len(INSIDE)} constructs inside 5 kinds of blocks, with another block after"),
    dict(fn=repeated, batch=8, params={"of": FEW, "times": [4, 12]}, thorough={"of": list(PIECES), "times": [3, 6, 30]},
         witness_rate=0.02, budget={"quick": 60, "thorough": 300},
         bounds=f"4 or 12 (thorough 3, 6, 30) of one of {len(FEW)} (thorough {len(PIECES)}) constructs or of two in turn"),
]
