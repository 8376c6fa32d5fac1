"""Composable manuscript fragments, each with the content it must produce.

A fragment is (source, expected) where expected is a list of strings (visible text) and
nested lists [kind, ...] for the constructs.  The expectation comes from the documented
meaning of the markup only.
"""

import tree_sitter
import tree_sitter_rsm

from .common import *

THM = ["theorem", "lemma", "corollary", "definition", "example", "remark", "proposition"]
# constructs that are visible as elements of their own
KINDS = set(THM) | {
    "paragraph", "note", "construct", "claimblock", "math", "mathblock", "code", "codeblock",
    "algorithm", "draft", "span", "proof", "sketch", "step", "statement", "subproof", "itemize",
    "enumerate", "item", "table", "tablehead", "tablebody", "tablerow", "tabledatum", "figure",
    "section", "subsection", "subsubsection", "abstract", "author", "contents", "bibliography",
    "bibitem", "error",
}
INLINE = {"span", "note", "construct", "draft", "math", "code", "a", "error"}
CONSTRUCTS = ["let", "define", "write", "case", "then", "new", "assume", "prove", "pick",
              "suffices", "claim", "qed", "st"]


def grammar_ok(src):
    """Does the grammar accept this source?  (The grammar itself is outside the model.)"""
    p = tree_sitter.Parser(tree_sitter.Language(tree_sitter_rsm.language()))
    return not p.parse(src.encode("utf-8")).root_node.has_error


class Words:
    """Unique marker words; `mid` (possibly symbolic) stands inside every one."""

    def __init__(self, mid=""):
        self.n, self.mid = 0, mid

    def __call__(self):
        self.n += 1
        return f"w{self.mid}q{self.n}"


# ------------------------------------------------------------------------------ inlines


def i_text(w, inner=None):
    a, b = w(), w()
    return f"{a} {b}", [f"{a} {b}"]


def _wrap(kind, open_, close):
    def f(w, inner=None):
        src, exp = (inner or i_text)(w)
        return f"{open_}{src}{close}", [[kind] + exp]

    return f


i_strong = _wrap("span", "*", "*")
i_emph = _wrap("span", "/", "/")
i_span = _wrap("span", ":span: {:strong:} ", "::")
i_span2 = _wrap("span", ":span: {:strong:, :emphas:} ", "::")
i_note = _wrap("note", ":note: ", "::")
i_claim = _wrap("construct", ":claim: ", " ::")
i_let = _wrap("construct", ":let: ", " ::")


def i_draft(w, inner=None):
    src, exp = (inner or i_text)(w)
    return f":draft: {src} ::", [["draft", "[ ", *exp, " ]"]]


def i_math(w, inner=None):
    a = w()
    return f"${a}$", [["math", "\\(" + a + "\\)"]]


def i_mathtag(w, inner=None):
    a = w()
    return f":math: {a} ::", [["math", "\\(" + a + "\\)"]]


def i_code(w, inner=None):
    a = w()
    return f"`{a}`", [["code", a]]


def i_codetag(w, inner=None):
    a = w()
    return f":code: {a} ::", [["code", a]]


def i_ref(w, inner=None):
    a = w()
    return f":ref:base,{a}::", [["a", a]]


def i_url(w, inner=None):
    a = w()
    return f":url:http://xy.z,{a}::", [["a", a]]


def i_cite(w, inner=None):
    return ":cite:bkey::", ["[", ["a", "1"], "]"]


INLINES = {
    "text": i_text, "strong": i_strong, "emph": i_emph, "span": i_span, "span2": i_span2, "note": i_note,
    "claim": i_claim, "let": i_let, "draft": i_draft, "math": i_math, "mathtag": i_mathtag,
    "code": i_code, "codetag": i_codetag, "ref": i_ref, "url": i_url, "cite": i_cite,
}
HOLDERS = ["strong", "emph", "span", "span2", "note", "claim", "let", "draft"]  # may contain inlines


def inline(name, name2=None):
    """An inline, with another one inside if name2 is given, between words of text."""

    def inner(w):
        if name2 is None:
            return i_text(w)
        s, e = INLINES[name2](w)
        a, b = w(), w()
        return f"{a} {s} {b}", [a + " ", *e, " " + b]

    def f(w):
        s, e = INLINES[name](w, inner)
        a, b = w(), w()
        return f"{a} {s} {b}.", [a + " ", *e, " " + b + "."]

    return f


# ------------------------------------------------------------------------------- blocks


def b_para(w, inl=i_text, blk=None):
    s, e = inl(w)
    return f"{s}\n\n", [["paragraph", *e]]


def b_parameta(w, inl=i_text, blk=None):
    s, e = inl(w)
    return f":paragraph: {{:types: foo}} {s}\n\n", [["paragraph", *e]]


def _blockof(kind, tag=None, meta=""):
    def f(w, inl=i_text, blk=None):
        s, e = (blk or b_para)(w, inl)
        return f":{tag or kind}:\n{meta}\n{s}::\n\n", [[kind, *e]]

    return f


def b_itemize(w, inl=i_text, blk=None, kind="itemize"):
    s, e = inl(w)
    s2, e2 = i_text(w)
    return f":{kind}:\n\n  :item: {s}\n\n  :item: {s2}\n\n::\n\n", [[kind, ["item", *e], ["item", *e2]]]


def b_enumerate(w, inl=i_text, blk=None):
    return b_itemize(w, inl, blk, "enumerate")


def b_figure(w, inl=i_text, blk=None):
    s, e = inl(w)
    return (f":figure:\n  :path: foo.png\n\n  :caption: {s}\n\n::\n\n",
            [["figure", ["caption", *e]]])


def b_table(w, inl=i_text, blk=None):
    s, e = inl(w)
    h1, h2, c1, cap = w(), w(), w(), w()
    return (
        f":table:\n\n:thead:\n\n:tr: {h1} : {h2} ::\n\n::\n\n:tbody:\n\n:tr:\n\n:td: {s} ::\n\n"
        f":td: {c1} ::\n\n::\n\n::\n\n:caption: {cap}\n\n::\n\n",
        [["table",
          ["tablehead", ["tablerow", ["tabledatum", h1], ["tabledatum", h2]]],
          ["tablebody", ["tablerow", ["tabledatum", *e], ["tabledatum", c1]]],
          ["caption", cap]]],
    )


def b_codeblock(w, inl=None, blk=None):
    a, b = w(), w()
    return f":codeblock:\n\n{a} = {b}\n\n::\n\n", [["codeblock", f"{a} = {b}"]]


def b_algorithm(w, inl=None, blk=None):
    a = w()
    return f":algorithm:\n\n{a}\n\n::\n\n", [["algorithm", a]]


def b_mathin(w, inl=i_text, blk=None):
    """Displayed math in the middle of a paragraph."""
    s, e = inl(w)
    m, b = w(), w()
    return f"{s}\n$$\n{m}\n$$\n{b} {b}\n\n", [["paragraph", *e, ["mathblock", f"$$ {m} $$"], f"{b} {b}"]]


def b_mathend(w, inl=i_text, blk=None):
    s, e = inl(w)
    m = w()
    return f"{s}\n$$\n{m}\n$$\n\n", [["paragraph", *e, ["mathblock", f"$$ {m} $$"]]]


def b_mathtwo(w, inl=i_text, blk=None):
    s, e = inl(w)
    m, b, m2 = w(), w(), w()
    return (f"{s}\n$$\n{m}\n$$\n{b}\n$$\n{m2}\n$$\n\n",
            [["paragraph", *e, ["mathblock", f"$$ {m} $$"], b, ["mathblock", f"$$ {m2} $$"]]])


def b_mathalone(w, inl=i_text, blk=None):
    m = w()
    return f"$$\n{m}\n$$\n\n", [["mathblock", f"$$ {m} $$"]]


def b_mathclaim(w, inl=i_text, blk=None):
    s, e = inl(w)
    m = w()
    return (f"{s}\n$$\n  :isclaim:\n\n{m}\n$$\n\n",
            [["paragraph", *e, ["claimblock", ["mathblock", f"$$ {m} $$"]]]])


def b_proof(w, inl=i_text, blk=None):
    s, e = inl(w)
    s2, e2 = i_text(w)
    return (f":proof:\n\n:step: {s} ::\n\n:step: {s2} ::\n\n::\n\n",
            [["proof", ["step", ["statement", ["paragraph", *e]]], ["step", ["statement", ["paragraph", *e2]]]]])


def b_substeps(w, inl=i_text, blk=None):
    """Sub-steps without an explicit subproof."""
    s, e = inl(w)
    a, b = w(), w()
    return (
        f":proof:\n\n:step: {a}\n\n  :step: {s} ::\n\n  :step: {b} ::\n\n::\n\n::\n\n",
        [["proof", ["step", ["statement", ["paragraph", a]],
                    ["subproof", ["step", ["statement", ["paragraph", *e]]], ["step", ["statement", ["paragraph", b]]]]]]],
    )


def b_subproof(w, inl=i_text, blk=None):
    """An explicit subproof, with text of its own."""
    s, e = inl(w)
    a, b = w(), w()
    return (
        f":proof:\n\n:step: {a}\n\n  :p:\n\n  {b}\n\n  :step: {s} ::\n\n  ::\n\n::\n\n::\n\n",
        [["proof", ["step", ["statement", ["paragraph", a]],
                    ["subproof", ["paragraph", b], ["step", ["statement", ["paragraph", *e]]]]]]],
    )


def b_stepblock(w, inl=i_text, blk=None):
    """A step whose statement holds a block."""
    s, e = (blk or b_para)(w, inl)
    a = w()
    return (f":proof:\n\n:step:\n\n{s}:step: {a} ::\n\n::\n\n::\n\n",
            [["proof", ["step", ["statement", *e], ["subproof", ["step", ["statement", ["paragraph", a]]]]]]])


def b_proofblock(w, inl=i_text, blk=None):
    """A proof with a block before its step."""
    s, e = (blk or b_para)(w, inl)
    a = w()
    return f":proof:\n\n{s}:step: {a} ::\n\n::\n\n", [["proof", *e, ["step", ["statement", ["paragraph", a]]]]]


BLOCKS = {
    "para": b_para, "parameta": b_parameta, "itemize": b_itemize, "enumerate": b_enumerate,
    "figure": b_figure, "table": b_table, "codeblock": b_codeblock, "algorithm": b_algorithm,
    "mathin": b_mathin, "mathend": b_mathend, "mathtwo": b_mathtwo, "mathalone": b_mathalone,
    "mathclaim": b_mathclaim, "proof": b_proof, "substeps": b_substeps, "subproof": b_subproof,
    "stepblock": b_stepblock, "proofblock": b_proofblock, "sketch": _blockof("sketch"),
}
for _k in THM:
    BLOCKS[_k] = _blockof(_k)
# blocks that can hold other blocks, and those that can hold inlines
OUTER = ["theorem", "lemma", "sketch", "stepblock", "proofblock"]
TEXTY = ["para", "parameta", "itemize", "enumerate", "figure", "table", "mathin", "mathend",
         "mathtwo", "mathclaim", "proof", "substeps", "subproof", "stepblock", "proofblock",
         "sketch", "theorem"]
PLAIN = [k for k in BLOCKS if k not in TEXTY]


def section(title, body, level=2):
    s, e = body
    kind = {2: "section", 3: "subsection", 4: "subsubsection"}[level]
    return f"{'#' * level} {title}\n\n{s}", [[kind, *e]]


def join(*frags):
    return "".join(s for s, _ in frags), [x for _, e in frags for x in e]


BASE = ":paragraph: {:label: base} Base.\n\n"
BASE_EXP = [["paragraph", "Base."]]
BIB = ':bibliography: ::\n\n'
BIB_TAIL = ":bibtex:\n\n@article{bkey,\n  title={Bt},\n  year={1900},\n}\n\n::\n"


def manuscript(body, title="Mtitle", bib=True):
    return f":rsm:\n  :title: {title}\n\n{BASE}{body}{BIB if bib else ''}::\n{BIB_TAIL if bib else ''}"


# ------------------------------------------------------------- what the page really has

GENERATED = {"keyword", "halmos", "note__number", "label", "pg-label", "hr-label"}
HEADS = {"h1", "h2", "h3", "h4"}


def kind_of(e):
    if e.tag in ("figcaption", "caption"):
        return "caption"
    if e.tag == "a":
        return "a"
    cl = e.classes
    if cl and cl[0] in KINDS:
        return cl[0]
    return None


def skeleton(root):
    """The page as a nested list like `expected`: generated text left out."""
    out = []
    stack = [(root, out)]

    def walk(e, acc):
        for c in e.children:
            if isinstance(c, str):
                acc.append(c)
                continue
            if is_chrome(c) or c.tag in HEADS:
                continue
            k = kind_of(c)
            if k == "paragraph" and "hr-label" in c.classes:
                continue
            if any(g in c.classes for g in GENERATED):
                continue
            if k is None:
                walk(c, acc)
            else:
                sub = [k]
                acc.append(sub)
                walk(c, sub)

    walk(root, out)
    return out


def tidy(tree, top=True):
    """Merge neighbouring texts, squeeze white space, drop empty text."""
    items, out = (tree if top else tree[1:]), []
    buf = ""
    for x in items:
        if isinstance(x, list):
            if norm(buf):
                out.append(norm(buf))
            buf = ""
            out.append(tidy(x, False))
        else:
            buf += x
    if norm(buf):
        out.append(norm(buf))
    return out if top else [tree[0]] + out


def flat(tree, top=True):
    """All text of a nested list; block boundaries become ' | '."""
    out = ""
    for x in tree if top else tree[1:]:
        if isinstance(x, list):
            if x[0] in INLINE:
                out += flat(x, False)
            else:
                out += " | " + flat(x, False) + " | "
        else:
            out += x
    return out


def flat_norm(tree):
    parts = [norm(p) for p in flat(tree).split("|")]
    return [p for p in parts if p]


def body_skeleton(root):
    """Skeleton of the manuscript's own content (after the base paragraph, before the
    bibliography)."""
    ms = [e for e in root.iter() if e.tag == "section" and "level-1" in e.classes]
    sk = skeleton(ms[0] if ms else root)
    return sk


def same_skeleton(ctx, root, exp, what, bib=True):
    """Check nesting and text of the whole page against the expectation."""
    got = tidy(body_skeleton(root))
    if bib:
        got = [x for x in got if not (isinstance(x, list) and x[0] == "bibliography")]
    want = tidy(exp)
    ctx.check(got == want, f"{what}: page has {got!r}, manuscript has {want!r}")


def same_text(ctx, root, exp, what, bib=True):
    """Check the text alone: once, in order, words neither glued nor split."""
    got = [x for x in body_skeleton(root)
           if not (bib and isinstance(x, list) and x[0] == "bibliography")]
    a, b = flat_norm(got), flat_norm(exp)
    ctx.check(a == b, f"{what}: page reads {a!r}, manuscript reads {b!r}")
