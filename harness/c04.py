"""C04: node ids are unique, in document order, and faithful in HTML."""

from .common import *
from . import frag as F

ASSUMPTIONS = [
    "manuscripts are built from the constructs of the documentation, of the kinds and up to the "
    "sizes given in the bounds",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]

EXTRA = {
    "author": ":author:\n  :name: Foo\n  :email: a@b.c\n::\n\n",
    "abstract": ":abstract:\n  :keywords: {ka, kb}\n\nHi.\n\n::\n\n",
    "toc": ":toc:\n\n",
    "toc2": ":toc:\n\nFoo.\n\n:toc:\n\n",
    "errors": "A :ref:nix:: b :cite:nix:: c.\n\n",
    "cites": "A :cite:bkey:: b :cite:bkey,bkey:: c.\n\n",
    "prevs": ":proof:\n\n:step: A. ::\n\n:step: B :prev:. ::\n\n:step: C :prev2:. ::\n\n:qed:\n\n::\n\n",
    "deep": ":proof:\n\n:step: A.\n\n  :step: B.\n\n    :step: C. ::\n\n  ::\n\n  :step: D. ::\n\n::\n\n:step: E. ::\n\n::\n\n",
    "cut": ":theorem:\n\n:let: $x$ :then: $y$ ::\n$$\n  :isclaim:\n\nz\n$$\n\n::\n\n",
}
SECS = {
    "sec": "## Sa\n\nTxt.\n\n", "sub": "## Sa\n\n### Sb\n\nTxt.\n\n#### Sc\n\nTxt.\n\n",
    "app": "## Sa\n\n:appendix:\n\n## Sb\n\n",
}


def pre(node):
    """All nodes of a subtree, parents first (independent of RSM's own traversal)."""
    out, stack = [], [node]
    while stack:
        n = stack.pop()
        out.append(n)
        stack.extend(reversed(list(getattr(n, "children", ()))))
    return out


def kinds_of(node):
    return [c.__name__.lower() for c in type(node).__mro__]


def check_tree(ctx, tree):
    order = pre(tree)
    for i, n in enumerate(order):
        ctx.check(n.nodeid == i, f"a {type(n).__name__} has the wrong id")
    ctx.check([n.nodeid for n in tree.traverse()] == list(range(len(order))),
              "traversal does not give the ids in order")
    return order


def check_html(ctx, root, order, what):
    ids = []
    for e in root.iter():
        v = e.get("data-nodeid")
        if v is None:
            continue
        ctx.check(v.isdigit() and int(v) < len(order), f"{what}: id of no node")
        ids.append(int(v))
        node = order[int(v)]
        ctx.check(kinds_of(node)[0] in e.classes,
                  f"{what}: id of a {type(node).__name__} is on a {e.tag}")
    ctx.check(all(a < b for a, b in zip(ids, ids[1:])), f"{what}: ids not in order or repeated")
    # the enclosing marked element is an ancestor of the node
    for e in root.iter():
        v = e.get("data-nodeid")
        if v is None:
            continue
        up = [a for a in e.ancestors() if a.get("data-nodeid") is not None]
        if up:
            n, found = order[int(v)].parent, False
            while n is not None:
                found = found or n is order[int(up[0].get("data-nodeid"))]
                n = n.parent
            ctx.check(found, f"{what}: element stands inside another node's element")
    return ids


def check(ctx, src):
    tree = to_tree(src)
    order = check_tree(ctx, tree)
    marked = {}
    for hr in (False, True):
        html = to_html(tree, hr)
        ctx.observe(html)
        marked[hr] = check_html(ctx, parse_html(ctx, html), order, "handrails" if hr else "plain")
        check_tree(ctx, tree)
    ctx.check(marked[False] == marked[True], "renderers mark different nodes")
    must = {"paragraph", "section", "subsection", "subsubsection", "theorem", "proof", "step",
            "figure", "table", "itemize", "enumerate", "item", "mathblock", "bibitem", "contents",
            "bibliography", "abstract", "author", "manuscript", "math", "span", "tabledatum"}
    for n in order:
        if type(n).__name__.lower() in must and not (type(n).__name__ == "Item" and toc_item(n)):
            ctx.check(n.nodeid in marked[False], f"a {type(n).__name__} is not marked")
    ctx.done()


def toc_item(n):
    while n is not None:
        if type(n).__name__ == "Contents":
            return True
        n = n.parent
    return False


def piece(name, w):
    if name in EXTRA:
        return EXTRA[name]
    if name in SECS:
        return SECS[name]
    return F.BLOCKS[name](w)[0]


def pairs(ctx):
    """Any two kinds of blocks, with or without a section between."""
    w = F.Words(ctx.char("m", "aZ3"))
    names = list(F.BLOCKS) + list(EXTRA)
    a = ctx.oneof("a", names)
    s = ctx.oneof("s", [None] + ctx.params["secs"])
    b = ctx.oneof("b", names)
    if a.startswith("toc") and b.startswith("toc"):
        ctx.stop()
    check(ctx, F.manuscript(piece(a, w) + (SECS[s] if s else "") + piece(b, w)))


def repeated(ctx):
    """One kind of block, or two in turn, many times."""
    w = F.Words(ctx.char("m", "aZ"))
    a = ctx.oneof("a", [n for n in list(F.BLOCKS) + list(EXTRA) + list(SECS) if n not in ("toc", "toc2", "app", "cut")])
    b = ctx.oneof("b", [a, "para", "cites"])
    k = ctx.oneof("k", ctx.params["times"])
    check(ctx, F.manuscript("".join(piece(a if i % 2 else b, w) for i in range(k))))


def inlines(ctx):
    """Every inline in every place, nested."""
    w = F.Words(ctx.char("m", "aZ3"))
    t = ctx.oneof("t", F.TEXTY)
    i = ctx.oneof("i", list(F.INLINES))
    j = ctx.oneof("j", [None] + list(F.INLINES)) if i in F.HOLDERS else None
    if i == j and i in ("strong", "emph"):
        ctx.stop()
    check(ctx, F.manuscript(F.BLOCKS[t](w, F.inline(i, j))[0]))


def lookup(ctx):
    """Look-up of any id, in use or not, from any node."""
    w = F.Words("")
    doc = ctx.oneof("doc", ["deep", "table", "mathtwo", "cites", "sub", "cut"])
    tree = to_tree(F.manuscript(piece(doc, w)))
    order = pre(tree)
    k = ctx.oneof("k", list(range(len(order))))
    top = order[k]
    if not isinstance(top, nodes.NodeWithChildren):
        ctx.stop()
    below = pre(top)
    q = ctx.int("q", -2, len(order) + 2)
    got = top.get_child_by_id(q)
    ctx.observe(None if got is None else got.nodeid)
    if got is None:
        for n in below:
            ctx.check(n.nodeid != q, "node with that id is not found")
    else:
        ctx.check(got.nodeid == q, "another node is found")
        ctx.check(any(got is n for n in below), "a node from elsewhere is found")
    ctx.done()


HARNESSES = [
    dict(fn=pairs, params={"secs": ["sub"]}, thorough={"secs": list(SECS)}, witness_rate=0.03,
         budget={"quick": 90, "thorough": 500},
         bounds="all pairs of 35 kinds of blocks, 2 (thorough 4) separators, both renderers"),
    dict(fn=inlines, witness_rate=0.03, budget={"quick": 90, "thorough": 500},
         bounds="15 kinds of inlines, nested up to depth 2, in 17 places, both renderers"),
    dict(fn=lookup, witness_rate=0.03, budget={"quick": 60, "thorough": 200},
         bounds="any integer from -2 to the number of nodes + 2, from every node of 6 manuscripts"),
    dict(fn=repeated, params={"times": [4, 11]}, thorough={"times": [3, 6, 15, 40]}, witness_rate=0.03, path_timeout=60,
         budget={"quick": 60, "thorough": 400}, bounds="4 or 11 (thorough up to 40) blocks of one kind or of two in turn"),
]
