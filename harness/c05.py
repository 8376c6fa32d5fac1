"""C05: tree edits keep the manuscript a tree, and failed edits change nothing."""

from .common import *

ASSUMPTIONS = [
    "edits are append, prepend, remove, replace_self, remove_self and clear, with a node or a "
    "list of nodes; the parent attribute is not set directly",
    "prepending a node that is already a child of that very node may move it or be refused",
]

# the types that each type may stand in, from the documentation; None: any
ALLOWED = {
    "Item": {"Itemize", "Enumerate", "Contents"}, "Caption": {"Figure", "Table"},
    "Step": {"Proof", "Subproof", "Step"},
}

WORLDS = {
    # name: (types, initial forest as {parent index: children})
    "plain": (["Section", "Paragraph", "Span", "Text", "Text", "Paragraph"], {0: [1, 5], 1: [2, 3]}),
    "list": (["Itemize", "Item", "Item", "Paragraph", "Text", "Enumerate"], {0: [1, 2], 1: [4]}),
    "proof": (["Proof", "Step", "Statement", "Subproof", "Step", "Text"], {0: [1], 1: [2, 3]}),
    "table": (["Table", "TableBody", "TableRow", "TableDatum", "Caption", "TableRow"],
              {0: [1], 1: [2, 5], 2: [3]}),
    "same": (["Text", "Paragraph", "Text", "Text", "Text", "Paragraph"], {1: [0, 2, 3]}),
    "tiny": (["Paragraph", "Paragraph", "Text"], {0: [2]}),
    "small": (["Paragraph", "Paragraph", "Text", "Text"], {0: [2, 3]}),
    "figure": (["Figure", "Caption", "Text", "Section", "Itemize", "Item"], {0: [1], 3: [0, 4]}),
}


def allowed(kind, parent_kind):
    """Ask the class itself: which types may be parents is data, not behaviour."""
    poss = getattr(nodes, kind).possible_parents
    return not poss or getattr(nodes, parent_kind) in poss


class Model:
    def __init__(self, kinds, init):
        self.kinds = kinds
        n = len(kinds)
        self.parent = [None] * n
        self.kids = [[] for _ in range(n)]
        for p, cs in init.items():
            for c in cs:
                self.kids[p].append(c)
                self.parent[c] = p

    def inner(self, i):
        return issubclass(getattr(nodes, self.kinds[i]), nodes.NodeWithChildren)

    def above(self, i):
        out = []
        while i is not None:
            out.append(i)
            i = self.parent[i]
        return out

    def can_put(self, c, p):
        return allowed(self.kinds[c], self.kinds[p]) and c not in self.above(p)

    def copy(self):
        m = Model(self.kinds, {})
        m.parent = list(self.parent)
        m.kids = [list(k) for k in self.kids]
        m.names = self.names
        return m

    def apply(self, op):
        """New model, or None if the edit must be refused."""
        kind, i, js = op
        m = self.copy()
        if kind in ("append", "prepend"):
            if len(set(js)) < len(js):
                return None
            for c in js:
                if m.parent[c] is not None and not (kind == "prepend" and m.parent[c] == i):
                    return None
                if not m.can_put(c, i):
                    return None
            for c in js:
                if m.parent[c] == i:
                    m.kids[i].remove(c)
                m.parent[c] = i
            m.kids[i] = m.kids[i] + js if kind == "append" else js + m.kids[i]
        elif kind == "remove":
            if m.parent[js[0]] != i:
                return None
            m.kids[i].remove(js[0])
            m.parent[js[0]] = None
        elif kind == "replace":
            p = m.parent[i]
            if p is None or len(set(js)) < len(js):
                return None
            for c in js:
                if c != i and (m.parent[c] is not None or not m.can_put(c, p)):
                    return None
            k = m.kids[p].index(i)
            m.parent[i] = None
            m.kids[p][k : k + 1] = js
            for c in js:
                m.parent[c] = p
        elif kind == "remove_self":
            p = m.parent[i]
            if p is not None:
                m.kids[p].remove(i)
                m.parent[i] = None
        elif kind == "clear":
            for c in m.kids[i]:
                m.parent[c] = None
            m.kids[i] = []
        return m


def compare(ctx, m, objs, what):
    for i, o in enumerate(objs):
        p = m.parent[i]
        ctx.check(o.parent is (None if p is None else objs[p]), f"{what}: wrong parent")
        kids = list(o.children)
        ctx.check(len(kids) == len(m.kids[i]) and
                  all(a is objs[b] for a, b in zip(kids, m.kids[i])), f"{what}: wrong children")
        ctx.check(o.label == m.names[i] and type(o).__name__ == m.kinds[i], f"{what}: node changed")


def pick(ctx, name, n):
    """Index of a node: a symbolic integer that the solver makes concrete."""
    x = ctx.int(name, 0, n - 1)
    return next(k for k in range(n) if x == k)


def op_of(ctx, k, m, n, lists):
    kind = ctx.oneof(f"op{k}", ["append", "prepend", "remove", "replace", "remove_self", "clear"])
    if ctx.params.get("leaves"):  # only the texts are moved, among the other nodes
        inner = [i for i in range(n) if m.inner(i)]
        low = len(inner)
        if kind in ("replace", "remove_self"):
            i = low + pick(ctx, f"i{k}", n - low)
        else:
            i = pick(ctx, f"i{k}", low)
        if kind in ("remove_self", "clear"):
            return kind, i, [], False
        return kind, i, [low + pick(ctx, f"j{k}", n - low)], False
    i = pick(ctx, f"i{k}", n)
    if kind in ("append", "prepend", "remove", "clear") and not m.inner(i):
        return None
    js, as_list = [], False
    if kind in ("append", "prepend", "replace", "remove"):
        js = [pick(ctx, f"j{k}", n)]
        if lists and kind != "remove":
            size = ctx.oneof(f"s{k}", ["one"] + lists)
            if size != "one":
                as_list = True
                if size == 0:
                    js = []
                for x in range(1, size):
                    js.append(pick(ctx, f"j{k}.{x}", n))
    return kind, i, js, as_list


def do(objs, kind, i, js, as_list):
    arg = [objs[j] for j in js]
    if not as_list and js:
        arg = arg[0]
    o = objs[i]
    if kind == "append":
        return o.append(arg)
    if kind == "prepend":
        return o.prepend(arg)
    if kind == "remove":
        return o.remove(arg)
    if kind == "replace":
        return o.replace_self(arg)
    if kind == "remove_self":
        return o.remove_self()
    return o.clear()


def history(ctx, steps):
    world = ctx.oneof("world", ctx.params["worlds"])
    kinds, init = WORLDS[world]
    if ctx.params.get("bare"):
        init = {}
    m = Model(kinds, init)
    n = len(kinds)
    # nodes may or may not look alike: only which node it is counts
    m.names = [ctx.char(f"n{i}", "ab") for i in range(n)]
    objs = [getattr(nodes, t)(label=m.names[i]) for i, t in enumerate(kinds)]
    for p in sorted(init):
        for c in init[p]:
            objs[p].append(objs[c])
    compare(ctx, m, objs, "start")
    trace = []
    for k in range(steps):
        op = op_of(ctx, k, m, n, ctx.params["lists"][k])
        if op is None:
            ctx.stop()
        kind, i, js, as_list = op
        if kind == "prepend" and len(set(js)) < len(js):
            ctx.stop()  # whether a list may name a node twice is left open
        trace.append(f"{i}.{kind}({js if as_list else js[:1]})")
        what = " ".join(trace)
        new = m.apply((kind, i, js))
        try:
            res = do(objs, kind, i, js, as_list)
            refused = False
        except (nodes.RSMNodeError, ValueError, TypeError):
            refused = True
        if kind == "prepend" and new is not None and any(m.parent[j] == i for j in js) and refused:
            new = None
        ctx.check(refused == (new is None),
                  f"{what}: {'refused' if refused else 'not refused'}")
        if new is not None:
            m = new
            if kind in ("append", "prepend"):
                ctx.check(res is objs[i], f"{what}: does not return the node")
        compare(ctx, m, objs, what)
    ctx.observe([[len(o.children)] for o in objs])
    ctx.done()


def lists(ctx):
    """One edit with a list of nodes (thorough: followed by any other)."""
    history(ctx, len(ctx.params["lists"]))


def edits(ctx):
    """Sequences of edits of one node each."""
    history(ctx, len(ctx.params["lists"]))


def long(ctx):
    """Longer sequences of edits that move few nodes."""
    history(ctx, len(ctx.params["lists"]))


def types(ctx):
    """Every type of node under every other type: allowed, or refused without a trace."""
    names = sorted({c.__name__ for c in nodes.all_node_subtypes()})
    a = ctx.oneof("child", names)
    b = ctx.oneof("parent", names)
    if not issubclass(getattr(nodes, b), nodes.NodeWithChildren):
        ctx.stop()
    op = ctx.oneof("op", ["append", "prepend", "replace", "appendlist", "prependlist", "replacelist"])
    child, parent, t = getattr(nodes, a)(), getattr(nodes, b)(), nodes.Text("x")
    parent.append(t)
    want = allowed(a, b)
    doc = ALLOWED.get(a)
    if doc is not None:  # the documented restrictions are there, whatever the class says
        for p in doc:
            ctx.check(allowed(a, p), f"{a} is not allowed in {p}")
        ctx.check(not allowed(a, "Paragraph"), f"{a} is allowed in Paragraph")
    one = op.replace("list", "")
    arg = [child] if op.endswith("list") else child
    try:
        if one == "replace":
            t.replace_self(arg)
        else:
            getattr(parent, one)(arg)
        done = True
    except nodes.RSMNodeError:
        done = False
    ctx.check(done == want, f"{op} of {a} to {b}: wrongly {'done' if done else 'refused'}")
    kids = list(parent.children)
    if done:
        exp = {"append": [t, child], "prepend": [child, t], "replace": [child]}[one]
    else:
        exp = [t]
    ctx.check(len(kids) == len(exp) and all(x is y for x, y in zip(kids, exp)), "children are wrong")
    ctx.check(child.parent is (parent if done else None), "parent is wrong")
    ctx.check(t.parent is (parent if t in exp else None), "parent of the first child is wrong")
    ctx.done()


BIG = [w for w in WORLDS if w not in ("tiny", "small")]
HARNESSES = [
    dict(fn=types, witness_rate=0.01, budget={"quick": 60, "thorough": 200},
         bounds="all pairs of node types, 6 kinds of edits"),
    dict(fn=lists, params={"worlds": BIG, "lists": [[2, 0]]},
         thorough={"lists": [[2, 0, 3], []]}, witness_rate=0.02,
         budget={"quick": 60, "thorough": 1500},
         bounds="6 trees of 6 nodes; any edit with a node or a list of 0 or 2 (thorough also 3) "
                "nodes (thorough: and any edit after it)"),
    dict(fn=edits, params={"worlds": ["plain", "proof", "same"], "lists": [[], []]},
         thorough={"worlds": BIG, "lists": [[], [], []]}, witness_rate=0.01,
         budget={"quick": 60, "thorough": 1500},
         bounds="3 (thorough 6) trees of 6 nodes; any 2 (thorough 3) edits of one node each"),
    dict(fn=long, params={"worlds": ["tiny"], "lists": [[]] * 4, "leaves": True},
         thorough={"worlds": ["tiny", "small"], "lists": [[]] * 5}, witness_rate=0.005,
         budget={"quick": 90, "thorough": 1500},
         bounds="any 4 (thorough 5) edits that move one text (thorough also two) among two paragraphs"),
    dict(fn=long, params={"worlds": ["small"], "lists": [[]] * 3, "leaves": True},
         thorough={"lists": [[]] * 4}, witness_rate=0.005, budget={"quick": 90, "thorough": 1500},
         bounds="any 3 (thorough 4) edits that move two texts among two paragraphs"),
]
