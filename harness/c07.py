"""C07: the HTML is well nested and mirrors the manuscript."""

from .common import *
from . import frag as F

ASSUMPTIONS = [
    "manuscripts are built from the constructs of the documentation, of the kinds and up to the "
    "sizes given in the bounds; sources that the grammar rejects are outside",
    "a strong span directly inside a strong span (emphasis in emphasis) has no nested meaning",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]


def render(ctx, frag, what):
    hr = ctx.flag("hr")
    src, exp = frag
    html = to_html(to_tree(F.manuscript(src)), hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    F.same_skeleton(ctx, root, F.BASE_EXP + exp, what)
    placed(ctx, root, what)
    ctx.done()


BLOCKISH = {"p", "div", "ul", "ol", "table", "section", "figure", "pre", "h1", "h2", "h3", "h4"}


def placed(ctx, root, what):
    """Paragraphs consist of <p> elements and displayed math; a <p> holds no block."""
    for e in root.iter():
        if e.tag == "p":
            for x in e.elems():  # claimed displayed math is not taken out of its <p>
                ctx.check(x.tag not in BLOCKISH or "claimblock" in x.classes, f"{what}: a block inside of <p>")
        elif "paragraph" in e.classes and e.tag == "div":
            zones = [e]
            if "hr" in e.classes:
                zones = [z for z in e.elems() if "hr-content-zone" in z.classes]
            for z in zones:
                ctx.check(not norm(z.own_text()), f"{what}: text of a paragraph outside of <p>")
                for x in z.elems():
                    ctx.check(x.tag == "p" or "mathblock" in x.classes or "claimblock" in x.classes
                              or "codeblock" in x.classes, f"{what}: part of a paragraph outside of <p>")


def words(ctx):
    return F.Words(ctx.char("m", "aZ3"))


def contain(ctx, name, outer, frag, w):
    """Put a fragment inside an outer block, section or appendix."""
    if outer is None:
        return frag
    if outer in ("section", "deepsection"):
        f = F.section("Title", frag)
        if outer == "deepsection":
            f = F.section("Title", frag, 4)
            f = F.section("Title", f, 3)
            f = F.section("Title", f, 2)
        return f
    return F.BLOCKS[outer](w, blk=lambda w, inl: frag)


def blocks(ctx):
    """Two blocks after each other, alone or inside another block or section."""
    w = words(ctx)
    outer = ctx.oneof("outer", [None, "section"] + ctx.params["outer"])
    a = ctx.oneof("a", list(F.BLOCKS))
    b = ctx.oneof("b", list(F.BLOCKS))
    frag = F.join(F.BLOCKS[a](w), F.BLOCKS[b](w))
    frag = F.join(contain(ctx, "c", outer, frag, w), F.b_para(w) if outer != "section" else ("", []))
    render(ctx, frag, f"{a}, {b} in {outer}")


def deep(ctx):
    """Blocks inside blocks, with something after them on every level."""
    w = words(ctx)
    n = ctx.params["n"]
    inner = ctx.oneof("b", ctx.params["inner"])
    frag = F.BLOCKS[inner](w)
    names = [inner]
    for k in range(n):
        o = ctx.oneof(f"o{k}", F.OUTER)
        after = ctx.oneof(f"p{k}", [None] + ctx.params["after"])
        if after:
            frag = F.join(frag, F.BLOCKS[after](w))
        inside = frag
        frag = F.BLOCKS[o](w, blk=lambda w, inl: inside)
        names.append(f"{after} in {o}")
    render(ctx, F.join(frag, F.b_para(w)), " ".join(names))


def tower(ctx):
    """Blocks of one or two kinds nested many times, with something after on every level or none."""
    w = words(ctx)
    a, b = ctx.oneof("a", F.OUTER), ctx.oneof("b", F.OUTER)
    n = ctx.oneof("n", ctx.params["depths"])
    frag = F.BLOCKS[ctx.oneof("inner", ["para", "mathalone", "itemize"])](w)
    after = ctx.oneof("after", [None, "para", "mathalone"])
    for k in range(n):
        if after:
            frag = F.join(frag, F.BLOCKS[after](w))
        inside = frag
        frag = F.BLOCKS[a if k % 2 else b](w, blk=lambda w, inl: inside)
    render(ctx, F.join(frag, F.b_para(w)), f"{n} times {a} in {b}")


def repeated(ctx):
    """Blocks of one kind, or of two in turn, many times."""
    w = words(ctx)
    a = ctx.oneof("a", list(F.BLOCKS))
    b = ctx.oneof("b", [a, "para", "mathalone"])
    n = ctx.oneof("n", ctx.params["times"])
    outer = ctx.oneof("outer", [None, "section", "theorem"])
    frag = F.join(*[F.BLOCKS[a if k % 2 else b](w) for k in range(n)])
    frag = F.join(contain(ctx, "c", outer, frag, w), F.b_para(w) if outer != "section" else ("", []))
    render(ctx, frag, f"{n} times {a}, {b} in {outer}")


def inlines(ctx):
    """An inline, alone or inside another one, in every place that holds text."""
    w = words(ctx)
    t = ctx.oneof("t", F.TEXTY)
    i = ctx.oneof("i", list(F.INLINES))
    j = ctx.oneof("j", [None] + list(F.INLINES)) if i in F.HOLDERS else None
    if i == j and i in ("strong", "emph"):
        ctx.stop()
    if ctx.params["three"] and j in F.HOLDERS:
        k = ctx.oneof("k", [None] + list(F.INLINES))
        if k in (i, j) and k in ("strong", "emph"):
            ctx.stop()
    else:
        k = None

    def inl(w):
        if k is None:
            return F.inline(i, j)(w)
        s, e = F.inline(j, k)(w)
        a, b = w(), w()
        s, e = F.INLINES[i](w, lambda w: (s, e))
        return f"{a} {s} {b}", [a + " ", *e, " " + b]

    frag = F.BLOCKS[t](w, inl)
    render(ctx, F.join(frag, F.b_para(w)), f"{i} {j} {k} in {t}")


# --------------------------------------------------- paragraphs with displayed math anywhere


def atom(w, kind):
    a = w()
    if kind == "text":
        return a, [a]
    if kind == "mathdot":
        return f"${a}$.", [["math", "\\(" + a + "\\)"], "."]
    if kind == "math2":
        return f"$${a}$$", [["mathblock", f"$$ {a} $$"]]
    if kind == "dmath":
        return f"\n$$\n{a}\n$$\n", [["mathblock", f"$$ {a} $$"]]
    if kind == "label":
        return f"\n$$\n  :label: eq-{a}\n\n{a}\n$$\n", [["mathblock", f"$$ {a} $$"]]
    if kind == "nonum":
        return f"\n$$\n  :nonum:\n\n{a}\n$$\n", [["mathblock", f"$$ {a} $$"]]
    if kind == "claim":
        return (f"\n$$\n  :isclaim:\n\n{a}\n$$\n",
                [["claimblock", ["mathblock", f"$$ {a} $$"]]])
    return F.INLINES[kind](w)


def run_para(w, kinds):
    src, exp = "", []
    for k in kinds:
        s, e = atom(w, k)
        if src and not src.endswith("\n") and not s.startswith("\n"):
            src += " "
        if s.startswith("\n") and (not src or src.endswith("\n")):
            s = s[1:]
        src += s
        exp += e + [" "]
    return src.strip("\n"), exp


HOSTS = {
    "para": "{}\n\n",
    "item": ":itemize:\n\n  :item: {}\n\n::\n\n",
    "caption": ":figure:\n  :path: foo.png\n\n  :caption: {}\n\n::\n\n",
    "step": ":proof:\n\n:step: {}\n\n::\n\n::\n\n",
    "stepend": ":proof:\n\n:step:\n\n{}\n\n:step: sub ::\n\n::\n\n::\n\n",
    "theorem": ":theorem:\n\n{}\n\n::\n\n",
    "proof": ":proof:\n\n{}\n\n::\n\n",
    "abstract": ":abstract:\n\n{}\n\n::\n\n",
    "meta": ":paragraph: {{:types: foo}} {}\n\n",
    "titled": ":paragraph: {{:title: Ti, :label: lab}} {}\n\n",
}


def in_host(host, src, exp):
    p = ["paragraph", *exp]
    e = {
        "para": [p], "item": [["itemize", ["item", *exp]]],
        "caption": [["figure", ["caption", *exp]]],
        "step": [["proof", ["step", ["statement", p]]]],
        "stepend": [["proof", ["step", ["statement", p],
                               ["subproof", ["step", ["statement", ["paragraph", "sub"]]]]]]],
        "theorem": [["theorem", p]], "proof": [["proof", p]], "abstract": [["abstract", p]],
        "meta": [p], "titled": [p],
    }[host]
    return HOSTS[host].format(src), e


def displayed(ctx):
    """Any sequence of text, inlines and displayed math, in every place that holds a paragraph."""
    w = words(ctx)
    host = ctx.oneof("host", ctx.params["hosts"])
    kinds = []
    for k in range(ctx.params["n"]):
        a = ctx.oneof(f"a{k}", [None] + ctx.params["atoms"])
        if a is None:
            break
        kinds.append(a)
    if not kinds:
        ctx.stop()
    src, exp = run_para(w, kinds)
    # a paragraph cannot begin with displayed math: that is a block of its own
    if not sensible(kinds):
        ctx.stop()
    src, exp = in_host(host, src, exp)
    render(ctx, F.join((src, exp), F.b_para(w)), f"{kinds} in {host}")


def sensible(kinds):
    """The sequences that form one paragraph."""
    if kinds[0] not in ("text", "strong", "note", "math", "mathdot"):
        return False
    return not any(kinds[i] in DM and kinds[i + 1] in DM for i in range(len(kinds) - 1))


DM = ("dmath", "label", "nonum", "claim", "math2")


def mathblocks(ctx):
    """Displayed math that is a block of its own: any number, in any block, with others."""
    w = words(ctx)
    outer = ctx.oneof("outer", [None, "section"] + F.OUTER)
    frag = ("", [])
    names = []
    for k in range(ctx.params["n"]):
        a = ctx.oneof(f"a{k}", [None, "label", "nonum", "claim", "dmath", "para", "end"])
        if a is None:
            continue
        names.append(a)
        if a == "para":
            frag = F.join(frag, F.b_para(w))
        elif a == "end":
            frag = F.join(frag, F.b_mathend(w))
        else:
            s, e = atom(w, a)
            frag = F.join(frag, (s.lstrip("\n") + "\n", e))
    if not names:
        ctx.stop()
    frag = F.join(contain(ctx, "c", outer, frag, w), F.b_para(w) if outer != "section" else ("", []))
    render(ctx, frag, f"{names} in {outer}")


HARNESSES = [
    dict(fn=blocks, params={"outer": ["theorem", "stepblock"]}, thorough={"outer": F.OUTER},
         witness_rate=0.05, budget={"quick": 120, "thorough": 600},
         bounds="all pairs of 26 kinds of blocks, alone, in a section or inside 2 (thorough 5) kinds of blocks"),
    dict(fn=deep, params={"n": 2, "inner": ["para", "mathalone", "mathend", "substeps", "itemize"],
                          "after": ["para", "mathalone"]},
         thorough={"n": 3, "inner": ["para", "mathalone", "mathend", "substeps", "itemize", "table", "figure"],
                   "after": ["para", "mathalone"]},
         witness_rate=0.05, budget={"quick": 60, "thorough": 900},
         bounds="every nesting of 2 (thorough 3) of 5 kinds of blocks around 5 (thorough 7) kinds, with something after on every level"),
    dict(fn=inlines, params={"three": False}, thorough={"three": True}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 900},
         bounds="15 kinds of inlines, nested up to depth 2 (thorough 3), in 17 places"),
    dict(fn=displayed, params={"n": 3, "hosts": ["para", "item", "step", "theorem", "titled"],
                               "atoms": ["text", "strong", "note", "dmath", "label", "claim"]},
         thorough={"n": 4, "hosts": list(HOSTS), "atoms": ["text", "strong", "math", "note", "dmath", "nonum", "label", "claim"]},
         witness_rate=0.05, budget={"quick": 60, "thorough": 900},
         bounds="all sequences of up to 3 (thorough 4) atoms in 5 (thorough 10) places"),
    dict(fn=mathblocks, params={"n": 3}, thorough={"n": 4}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 600},
         bounds="up to 3 (thorough 4) displayed maths or paragraphs in a row in 7 places"),
    dict(fn=tower, params={"depths": [3, 5]}, thorough={"depths": [3, 4, 5, 6, 7]}, witness_rate=0.02,
         budget={"quick": 60, "thorough": 600},
         bounds="5 x 5 kinds of blocks in turn nested 3 or 5 (thorough 3 to 7) deep around 3 kinds"),
    dict(fn=repeated, params={"times": [4, 9]}, thorough={"times": [4, 9, 25]}, witness_rate=0.02,
         budget={"quick": 60, "thorough": 600},
         bounds="4 or 9 (thorough 25) blocks of one kind or of two in turn, in 3 places"),
]
