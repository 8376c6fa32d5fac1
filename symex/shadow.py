"""Stand-in for tree_sitter.Parser that accepts sources containing symbolic characters.

The real (binary) parser runs on the source with every symbolic character replaced by a
representative of its character class; the resulting concrete syntax tree is presented to
the code under test with the symbolic characters put back in `text`.  The only assumption
is that the grammar treats all ASCII letters alike and all digits alike at the positions
where harnesses place symbolic characters; a symbolic character whose domain spans several
classes is first split by class (a solver-decided fork).
"""

from .engine import ENGINE, PUA_HI, PUA_LO, in_set

REAL = {}


def _char_class(o):
    c = chr(o)
    if c.isascii() and c.isalpha():
        return "a"
    if c.isascii() and c.isdigit():
        return "1"
    return c


def _representatives(src):
    out = []
    for ch in src:
        o = ord(ch)
        sc = ENGINE.chars.get(o) if PUA_LO <= o <= PUA_HI else None
        if sc is None:
            out.append(ch)
            continue
        classes = {}
        for d in sc.dom:
            classes.setdefault(_char_class(d), set()).add(d)
        rep = None
        for cl in sorted(classes):
            if len(classes) == 1 or ENGINE.branch(in_set(sc.expr, classes[cl])):
                rep = cl
                break
        if rep == "a":
            rep = chr(min(classes["a"]))
        elif rep == "1":
            rep = chr(min(classes["1"]))
        out.append(rep if rep is not None else ch)
    return "".join(out)


class Node:
    __slots__ = ("_n", "_t")

    def __init__(self, n, t):
        self._n, self._t = n, t

    @property
    def text(self):
        if self._n.text is None:
            return None
        return self._t.slice(self._n.start_byte, self._n.end_byte)

    @property
    def start_point(self):
        return self._t.point(self._n.start_point, self._n.start_byte)

    @property
    def end_point(self):
        return self._t.point(self._n.end_point, self._n.end_byte)

    def __getattr__(self, name):
        return wrap(getattr(self._n, name), self._t)

    def __eq__(self, o):
        return isinstance(o, Node) and self._n == o._n

    def __hash__(self):
        return hash(self._n)

    def __str__(self):
        return str(self._n)

    __repr__ = __str__


class Tree:
    def __init__(self, tree, src, rep):
        self._tree, self.src, self.rep = tree, src, rep
        # byte offset in the representative source -> character offset
        self.off, b = {}, 0
        for i, c in enumerate(rep):
            self.off[b] = i
            b += len(c.encode("utf-8"))
        self.off[b] = len(rep)

    def slice(self, a, b):
        return self.src[self.off[a] : self.off[b]].encode("utf-8")

    def point(self, point, byte):
        """Columns count bytes: those of the text as the code under test sees it."""
        i = self.off[byte]
        line = self.rep.rfind("\n", 0, i) + 1
        return (point[0], len(self.src[line:i].encode("utf-8")))

    def __getattr__(self, name):
        return wrap(getattr(self._tree, name), self)


def wrap(x, t):
    k = type(x)
    if k is REAL["Node"]:
        return Node(x, t)
    if k is list:
        return [wrap(y, t) for y in x]
    if k is tuple:
        return tuple(wrap(y, t) for y in x)
    if callable(x) and not isinstance(x, type):
        return lambda *a, **kw: wrap(
            x(*[y._n if isinstance(y, Node) else y for y in a], **kw), t
        )
    return x


class Parser:
    def __init__(self, *a, **k):
        self._p = REAL["Parser"](*a, **k)

    def parse(self, data, *a, **k):
        s = data.decode("utf-8")
        rep = _representatives(s)
        tree = self._p.parse(rep.encode("utf-8"), *a, **k)
        if rep == s:
            return tree
        return Tree(tree, s, rep)

    def __getattr__(self, name):
        return getattr(self._p, name)


def install():
    import tree_sitter

    REAL["Parser"], REAL["Node"] = tree_sitter.Parser, tree_sitter.Node
    tree_sitter.Parser = Parser
