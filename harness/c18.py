"""C18: tree queries agree with the tree."""

from . import c08
from . import frag as F
from .common import *

ASSUMPTIONS = [
    "a type stands for its subtypes too, except for ancestors, where the documentation asks for the "
    "exact type",
    "during a traversal only the node just visited is replaced or removed; what replaces it is not "
    "part of that traversal",
    "the S-expression is compared by its structure and indentation",
]

KINDS = ["Section", "Subsection", "Paragraph", "Text"]


def pick(ctx, name, n):
    """An index: a symbolic integer that the solver makes concrete."""
    x = ctx.int(name, 0, n - 1)
    return next(k for k in range(n) if x == k)


class Plan:
    """A tree as lists of kinds, parents and children."""

    def __init__(self, ctx, n, kinds):
        self.n = n
        self.kinds = [ctx.oneof("k0", kinds[:-1])]
        self.parent, self.kids = [None], [[] for _ in range(n)]
        for i in range(1, n):
            p = pick(ctx, f"p{i}", i)
            if self.kinds[p] == "Text":
                ctx.stop()
            self.kinds.append(ctx.oneof(f"k{i}", kinds))
            self.parent.append(p)
            self.kids[p].append(i)

    def build(self, labels):
        self.objs = [getattr(nodes, k)(label=l) for k, l in zip(self.kinds, labels)]
        for i in range(1, self.n):
            self.objs[self.parent[i]].append(self.objs[i])
        return self.objs

    def order(self, i=0):
        out = [i]
        for k in self.kids[i]:
            out += self.order(k)
        return out


def same(ctx, got, want, what):
    got = list(got)
    ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), what)


def is_one(ctx, got, want, what):
    ctx.check(got is want, what + (": found although there is none" if want is None else ": not the right one"))


def sexp_tree(ctx, s, tab, what):
    """The S-expression as nested lists [type, meta, child, ...]; checks its layout."""
    stack, roots = [], []
    for line in s.split("\n"):
        bare = line.lstrip(" ")
        ctx.check(len(line) - len(bare) == tab * len(stack) and bare[:1] == "(", f"{what}: bad layout")
        closing = len(bare) - len(bare.rstrip(")"))
        item = bare[1:len(bare) - closing]
        name, _, meta = item.partition(" ")
        node = [name, meta]
        (stack[-1] if stack else roots).append(node)
        stack.append(node)
        ctx.check(closing <= len(stack), f"{what}: too many parentheses")
        del stack[len(stack) - closing:]
    ctx.check(not stack and len(roots) == 1, f"{what}: parentheses do not match")
    return roots[0]


def check_sexp(ctx, root, what, meta=False):
    for tab in (2, 1, 4):
        pairs = [(sexp_tree(ctx, root.sexp(tab_width=tab), tab, what), root)]
        while pairs:
            s, n = pairs.pop()
            ctx.check(s[0] == type(n).__name__ and s[1] == "", f"{what}: the S-expression shows another node")
            ctx.check(len(s) - 2 == len(n.children), f"{what}: the S-expression shows other children")
            pairs += list(zip(s[2:], n.children))


def check_meta(ctx, root, what):
    for ignore in ({"reftext"}, {"label", "reftext"}):
        pairs = [(sexp_tree(ctx, root.sexp(meta=True, ignore_meta_keys=ignore), 2, what), root)]
        while pairs:
            s, n = pairs.pop()
            ctx.check(s[0] == type(n).__name__ and len(s) - 2 == len(n.children), f"{what}: not the tree with meta")
            m = s[1].strip()
            ctx.check(m[:1] == "{" and m[-1:] == "}", f"{what}: no meta")
            want = f":label: {n.label}"
            has = want in m
            ctx.check(has == (bool(n.label) and "label" not in ignore), f"{what}: the meta is not that of the node")
            pairs += list(zip(s[2:], n.children))


def queries(ctx, root, classes):
    """Every query on every node, against the parent and child relation."""
    # the plain relation, by walking the children
    order, up = [], {id(root): []}
    stack = [root]
    while stack:
        n = stack.pop()
        order.append(n)
        for c in n.children:
            up[id(c)] = up[id(n)] + [n]
        stack.extend(reversed(n.children))
    ctx.check(len({id(n) for n in order}) == len(order), "a node has two places")
    for n in order:
        above = list(reversed(up[id(n)]))
        sibs = list(above[0].children) if above else [n]
        here = next(i for i, s in enumerate(sibs) if s is n)
        before, after = sibs[:here][::-1], sibs[here + 1:]
        kids = list(n.children)
        is_one(ctx, n.prev_sibling(), before[0] if before else None, "previous sibling")
        is_one(ctx, n.next_sibling(), after[0] if after else None, "next sibling")
        mine = type(n)
        is_one(ctx, n.prev_sibling("self"), next((x for x in before if isinstance(x, mine)), None),
               "previous sibling of the same type")
        is_one(ctx, n.next_sibling("self"), next((x for x in after if isinstance(x, mine)), None),
               "next sibling of the same type")
        for c in classes:
            tup = isinstance(c, tuple)
            hits = [i for i, x in enumerate(kids) if isinstance(x, c)]
            for name, at in (("first", 0), ("last", -1)):
                q = getattr(n, name + "_of_type")
                want = kids[hits[at]] if hits else None
                is_one(ctx, q(c), want, f"{name} child of a type")
                got = q(c, return_idx=True)
                ctx.check(isinstance(got, tuple) and len(got) == 2 and got[0] is want and
                          got[1] == (hits[at] if hits else None), f"{name} child of a type with its index")
            exact = c if tup else (c,)
            is_one(ctx, n.first_ancestor_of_type(c), next((x for x in above if type(x) in exact), None),
                   "nearest ancestor of a type")
            if not tup:
                is_one(ctx, n.prev_sibling(c), next((x for x in before if isinstance(x, c)), None),
                       "previous sibling of a type")
                is_one(ctx, n.next_sibling(c), next((x for x in after if isinstance(x, c)), None),
                       "next sibling of a type")
        # the subtree of n, in document order
        sub = [x for x in order if x is n or any(a is n for a in up[id(x)])]
        same(ctx, n.traverse(), sub, "traversal")
        for c in classes:
            if not isinstance(c, tuple):
                same(ctx, n.traverse(nodeclass=c), [x for x in sub if isinstance(x, c)], "traversal by type")


def trees(ctx):
    """All queries on all nodes of all small trees; the nodes may look alike."""
    n = ctx.params["n"]
    plan = Plan(ctx, n, KINDS)
    objs = plan.build([ctx.char(f"l{i}", "ab") for i in range(n)])
    queries(ctx, objs[0], [nodes.Section, nodes.Subsection, nodes.Paragraph, nodes.Text, nodes.Node, nodes.Heading,
                           (nodes.Paragraph, nodes.Text), (nodes.Subsection,), nodes.Item])
    same(ctx, objs[0].traverse(), [objs[i] for i in plan.order()], "traversal of the whole tree")
    check_sexp(ctx, objs[0], "sexp")
    ctx.observe(objs[0].sexp())
    ctx.done()


def meta(ctx):
    """S-expressions with meta: each node's own."""
    n = ctx.params["n"]
    plan = Plan(ctx, n, ["Section", "Paragraph", "Text"])
    labels = [("l" + ctx.char(f"l{i}", "abZ7") + str(i)) if ctx.flag(f"has{i}") else "" for i in range(n)]
    objs = plan.build(labels)
    check_meta(ctx, objs[0], "sexp")
    ctx.observe(objs[0].sexp(meta=True))
    ctx.done()


def conditions(ctx):
    """Traversal yields exactly what a condition says, whatever it says."""
    n = ctx.params["n"]
    plan = Plan(ctx, n, ["Section", "Text"])
    objs = plan.build([""] * n)
    want = [ctx.symflag(f"c{i}") for i in range(n)]
    asked = []

    def cond(x):
        i = next(k for k, o in enumerate(objs) if o is x)
        asked.append(i)
        return want[i]

    start = pick(ctx, "from", n)
    got = list(objs[start].traverse(condition=cond))
    sub = plan.order(start)
    same(ctx, got, [objs[i] for i in sub if want[i]], "traversal with a condition")
    # a class has precedence over a condition
    got = list(objs[start].traverse(condition=cond, nodeclass=nodes.Section))
    same(ctx, got, [objs[i] for i in sub if plan.kinds[i] == "Section"], "traversal with a class and a condition")
    ctx.done()


OPS = ["replace", "replace2", "remove", "nothing", "wrap"]


def changing(ctx):
    """Visited nodes are replaced, removed or wrapped while the traversal goes on."""
    n = ctx.params["n"]
    plan = Plan(ctx, n, ["Paragraph", "Span", "Text"])
    objs = plan.build([""] * n)
    only = ctx.oneof("only", [None, nodes.Span, nodes.Text])
    op = ctx.oneof("op", OPS)
    hit = [False] + [ctx.symflag(f"r{i}") for i in range(1, n)]
    want = [objs[i] for i in plan.order() if only is None or isinstance(objs[i], only)]
    got = []
    for x in objs[0].traverse(nodeclass=only):
        got.append(x)
        if len(got) > 3 * n:
            break
        i = next((k for k, o in enumerate(objs) if o is x), None)
        if i is None or not hit[i]:
            continue
        if op == "replace":
            x.replace_self(nodes.Span())
        elif op == "replace2":
            x.replace_self([nodes.Text("a"), nodes.Span().append(nodes.Text("b"))])
        elif op == "remove":
            x.remove_self()
        elif op == "nothing":
            x.replace_self([])
        else:
            w = nodes.Span()
            x.replace_self(w)
            w.append(x)
    same(ctx, got, want, f"traversal during which visited nodes are changed ({op})")
    ctx.done()


ASKED = [nodes.Section, nodes.Paragraph, nodes.Span, nodes.Text, nodes.Node, (nodes.Paragraph, nodes.Text), nodes.Item]


def edited(ctx):
    """All queries again after each of several edits."""
    n = ctx.params["n"]
    plan = Plan(ctx, n, ["Section", "Paragraph", "Text"])
    objs = plan.build(["l%d" % i for i in range(n)])
    root = objs[0]
    queries(ctx, root, ASKED)
    check_sexp(ctx, root, "sexp")
    for k in range(ctx.params["edits"]):
        op = ctx.oneof(f"op{k}", ["remove", "append", "prepend", "replace", "clear", "move", "label"])
        x = objs[pick(ctx, f"x{k}", n)]
        if x.parent is None and x is not root or x is root and op in ("remove", "replace", "move"):
            ctx.stop()
        if op in ("append", "prepend", "clear") and not isinstance(x, nodes.NodeWithChildren):
            ctx.stop()
        if op == "remove":
            x.remove_self()
        elif op in ("append", "prepend"):
            getattr(x, op)(nodes.Span())
        elif op == "replace":
            x.replace_self([nodes.Text("new"), nodes.Span().append(nodes.Text("inner"))])
        elif op == "clear":
            x.clear()
        elif op == "move":
            x.remove_self()
            root.append(x)
        else:
            x.label = "other"
        queries(ctx, root, ASKED)
        check_sexp(ctx, root, "sexp")
        check_meta(ctx, root, "sexp")
    ctx.done()


def long(ctx):
    """Deeper and wider trees: each node below the root or below the one before it."""
    n = ctx.params["n"]
    objs = [nodes.Paragraph(label="r")]
    for i in range(1, n):
        up = objs[-1] if ctx.flag(f"deep{i}") else objs[0]
        if not isinstance(up, nodes.NodeWithChildren):
            ctx.stop()
        objs.append(nodes.Text("x") if ctx.flag(f"text{i}") else nodes.Span())
        up.append(objs[-1])
    queries(ctx, objs[0], [nodes.Paragraph, nodes.Span, nodes.Text, nodes.Node, (nodes.Span, nodes.Text), nodes.Item])
    check_sexp(ctx, objs[0], "sexp")
    ctx.done()


def documents(ctx):
    """All queries on all nodes of real manuscripts."""
    w = F.Words(ctx.char("m", "aZ"))
    names = [ctx.oneof(f"a{k}", ctx.params["of"]) for k in range(ctx.params["n"])]
    if "toc" in names[1:] or names.count("appendix") > 1:
        ctx.stop()
    src, _ = c08.compose(ctx, names, w)
    tree = to_tree(src)
    found = sorted({type(x) for x in tree.traverse()}, key=lambda c: c.__name__)
    queries(ctx, tree, found + [nodes.Node, nodes.NodeWithChildren, nodes.Heading, nodes.BaseParagraph,
                                (nodes.Section, nodes.Theorem), (nodes.Step, nodes.Subproof, nodes.Proof)])
    check_sexp(ctx, tree, "sexp")
    ctx.done()


def pairs(ctx):
    """All queries on all nodes of longer manuscripts."""
    documents(ctx)


HARNESSES = [
    dict(fn=trees, batch=8, params={"n": 5}, thorough={"n": 6}, witness_rate=0.01, budget={"quick": 60, "thorough": 400},
         bounds="all trees of 5 (thorough 6) nodes of 4 types, labels equal or not, 9 types asked for"),
    dict(fn=meta, batch=8, params={"n": 4}, thorough={"n": 5}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 400},
         bounds="all trees of 4 (thorough 5) nodes of 3 types with and without symbolic labels"),
    dict(fn=conditions, batch=8, params={"n": 5}, thorough={"n": 6}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 400},
         bounds="all trees of 5 (thorough 6) nodes, any condition, from every node"),
    dict(fn=changing, batch=8, params={"n": 4}, thorough={"n": 5}, witness_rate=0.02,
         budget={"quick": 60, "thorough": 400},
         bounds="all trees of 4 (thorough 5) nodes, any subset of the visited nodes changed in 5 ways"),
    dict(fn=documents, batch=4, params={"n": 1, "of": list(c08.PIECES)}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 60}, bounds=f"manuscripts of each of {len(c08.PIECES)} constructs"),
    dict(fn=pairs, batch=4, params={"n": 2, "of": c08.CORE + ["figure", "table", "itemsmath"]},
         thorough={"n": 3, "of": c08.CORE + ["figure", "table", "itemsmath"]},
         witness_rate=0.05, budget={"quick": 60, "thorough": 600},
         bounds="manuscripts of all sequences of 2 (thorough 3) of 14 constructs"),
    dict(fn=edited, batch=8, params={"n": 4, "edits": 1}, thorough={"n": 4, "edits": 2}, witness_rate=0.02,
         budget={"quick": 60, "thorough": 600},
         bounds="all trees of 4 nodes of 3 types, all queries before and after any 1 (thorough 2) edits of 7 kinds"),
    dict(fn=edited, batch=8, params={"n": 3, "edits": 2}, thorough={"n": 3, "edits": 3}, witness_rate=0.02,
         budget={"quick": 60, "thorough": 600},
         bounds="all trees of 3 nodes, all queries before and after any 2 (thorough 3) edits"),
    dict(fn=long, batch=8, params={"n": 7}, thorough={"n": 9}, witness_rate=0.02, budget={"quick": 60, "thorough": 600},
         bounds="all trees of 7 (thorough 9) nodes each of which is below the root or the node before"),
]
