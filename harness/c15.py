"""C15: runs do not influence each other."""

from rsm import linter

from . import c08
from . import frag as F
from .common import *

ASSUMPTIONS = [
    "manuscripts are built from the documented constructs; code in a language is left out (it is "
    "highlighted by pygments, which is not instrumented)",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]

PIECES = {k: v for k, v in c08.PIECES.items() if k not in c08.OPAQUE}
FAIL = {
    "prev": "Hi :prev:abc::.\n\n",  # the transformer raises
    "prevstep": ":proof:\n\n:step: a :prev2: ::\n\n::\n\n",
    "caption": ":caption: hello\n\n",  # the parser raises
    "nolang": ":code: {:lang: nosuch} x :: y\n\n",  # whatever happens here
    "unknowntag": ":nosuch: x ::\n\n",
}


def dump(tree):
    """All there is to a tree, as text."""
    ids, n = {}, 0
    todo = [tree]
    order = []
    while todo:
        node = todo.pop()
        ids[id(node)] = n
        n += 1
        order.append(node)
        if isinstance(node, nodes.NodeWithChildren):
            todo += list(node.children)[::-1]

    def show(v):
        if isinstance(v, nodes.Node):
            return "node %s" % ids.get(id(v), v.__class__.__name__)
        if isinstance(v, (list, tuple)):
            return "[" + ", ".join(show(y) for y in v) + "]"
        if isinstance(v, str):
            return "'" + v + "'"
        return repr(v)

    out = []
    for node in order:
        out.append(node.__class__.__name__)
        for k in sorted(vars(node)):
            out.append("  " + k + ": " + show(vars(node)[k]))
    return "\n".join(out)


class Tools:
    def __init__(self):
        self.parser = tsparser.TSParser()
        self.transformer = transformer.Transformer()
        self.plain = translator.Translator(quiet=True)
        self.rails = translator.HandrailsTranslator(quiet=True, add_source=False)
        self.linter = linter.Linter()

    def mixed(self, old, use):
        """These tools, but the chosen ones replaced by used ones."""
        for k in use:
            setattr(self, k, getattr(old, k))
        return self


def run(tools, src):
    """Everything a run gives: an exception, or pages, tree, messages."""
    log = logging.getLogger("RSM")
    level = log.level

    def go():
        out = []
        try:
            tree = tools.transformer.transform(tools.parser.parse(src))
            out.append(dump(tree))
            out.append(tools.plain.translate(tree))
            out.append(tools.rails.translate(tree))
            tools.linter.lint(tree)
        except Exception as e:
            out.append("raised " + e.__class__.__name__ + " " + str(e))
        return out

    try:
        out, cap = with_capture(go, level=25)
    finally:
        log.setLevel(level)
    return out + [m for _, m, _ in cap.records]


WHAT = ["tree", "page", "page with handrails"]


def same_runs(ctx, a, b, how):
    for i, (x, y) in enumerate(zip(a, b)):
        what = WHAT[i] if i < len(WHAT) else "message"
        ctx.check(x == y, f"another {what} {how}")
    ctx.check(len(a) == len(b), f"other messages {how}")


def piece(ctx, name, k):
    """The source of a part; labels and words hold symbolic characters."""
    if name in FAIL:
        return FAIL[name]
    w = F.Words(ctx.char("m%d" % k, "aZ"))
    return PIECES[name](w)[0]


def labelled(ctx, k):
    c, d = ctx.char("c%d" % k, "xy"), ctx.char("d%d" % k, "xy")
    return f":theorem:\n  :label: lab{c}\n\nSee :ref:lab{d}::.\n\n::\n\n"


USED = ["parser", "transformer", "plain", "rails", "linter"]


def histories(ctx):
    """A manuscript on its own, then after another one, with used and with new tools."""
    a = ctx.oneof("before", ctx.params["before"])
    b = ctx.oneof("b", ctx.params["of"])
    use = ctx.oneof("use", [[], USED] + [[u] for u in USED] if ctx.params["single"] else [[], USED])
    src_b = F.manuscript(labelled(ctx, 0) + piece(ctx, b, 0))
    src_a = F.manuscript(labelled(ctx, 1) + piece(ctx, a, 1))
    alone = run(Tools(), src_b)
    old = Tools()
    run(old, src_a)
    if ctx.flag("twice"):
        run(old, src_a)
    again = run(Tools().mixed(old, use), src_b)
    same_runs(ctx, alone, again, f"after {a}" + (" with used " + " ".join(use) if use else ""))
    for x in again[1:3]:
        ctx.observe(x)
    ctx.done()


def api(ctx):
    """The same with the functions users call."""
    a, b = ctx.oneof("a", ctx.params["of"] + list(FAIL)), ctx.oneof("b", ctx.params["of"])
    src_b = F.manuscript(labelled(ctx, 0) + piece(ctx, b, 0))
    src_a = F.manuscript(labelled(ctx, 1) + piece(ctx, a, 1))
    hr = ctx.symflag("hr")

    def go():
        out, cap = with_capture(lambda: rsm.render(source=src_b, handrails=hr))
        return [out] + [m for _, m, _ in cap.records]

    log = logging.getLogger("RSM")
    old = log.level, log.handlers[:]
    try:
        alone = go()
        try:
            (rsm.lint if ctx.flag("lint") else rsm.render)(source=src_a)
        except Exception:
            pass
        log.setLevel(old[0])
        again = go()
    finally:
        log.setLevel(old[0])
        log.handlers[:] = old[1]
    ctx.check(alone[0] == again[0], f"another page after {a}")
    ctx.check(alone[1:] == again[1:], f"other warnings after {a}")
    ctx.observe(again[0])
    ctx.done()


def files(ctx):
    """A file is rewritten between runs on its path, or another one of the same name is used."""
    import os
    import shutil
    import tempfile

    n = ctx.params["n"]
    hr = ctx.symflag("hr")
    log = logging.getLogger("RSM")
    old = log.level, log.handlers[:]
    cwd = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="c15-")
    try:
        os.mkdir(os.path.join(scratch, "d0"))
        os.mkdir(os.path.join(scratch, "d1"))
        for k in range(n):
            d = ctx.choose("dir%d" % k, 2)
            os.chdir(os.path.join(scratch, "d%d" % d))
            name = ctx.oneof("p%d" % k, ctx.params["of"])
            src = F.manuscript(labelled(ctx, k) + piece(ctx, name, k))
            how = ctx.oneof("how%d" % k, ["path", "full", "lint"])
            with open("in.rsm", "w", encoding="utf-8") as f:
                f.write(src)
            path = os.path.abspath("in.rsm") if how == "full" else "in.rsm"
            if how == "lint":
                tree = rsm.lint(path=path)
                ctx.check(dump(tree) == dump(to_tree(src)), "lint of a path gives another manuscript")
            else:
                html = rsm.render(path=path, handrails=hr)
                log.setLevel(old[0])
                ctx.check(html == rsm.render(source=src, handrails=hr), "a path renders differently from what the file holds")
                ctx.observe(html)
            log.setLevel(old[0])
    finally:
        log.setLevel(old[0])
        log.handlers[:] = old[1]
        os.chdir(cwd)
        shutil.rmtree(scratch)
    ctx.done()


SEQ = [[False, False], [True, True], [False, True, False], [True, False, True]]


def renderings(ctx):
    """One tree, rendered any number of times."""
    name = ctx.oneof("piece", list(PIECES))
    src = F.manuscript(labelled(ctx, 0) + piece(ctx, name, 0))
    tree = to_tree(src)
    first = {}
    old = {}
    free = ctx.params["steps"]
    seq = [ctx.flag("rails%d" % k) for k in range(free)] if free else ctx.oneof("seq", SEQ)
    news = [ctx.flag("new%d" % k) for k in range(len(seq))] if free else [ctx.flag("new")] * len(seq)
    for rails, new in zip(seq, news):
        if new or rails not in old:
            old[rails] = (translator.HandrailsTranslator(quiet=True, add_source=False) if rails
                          else translator.Translator(quiet=True))
        html = old[rails].translate(tree)
        if rails not in first:
            first[rails] = to_html(to_tree(src), rails)
        ctx.check(html == first[rails], f"rendering {name} again gives another page")
    ctx.done()


def after_failure(ctx):
    """A translator is used again after a manuscript that it could not translate."""
    name = ctx.oneof("piece", ctx.params["of"])
    src = F.manuscript(piece(ctx, name, 0))
    rails = ctx.flag("rails")
    t = translator.HandrailsTranslator(quiet=True) if rails else translator.Translator(quiet=True)
    bad = to_tree(F.manuscript(labelled(ctx, 1)))
    where = ctx.choose("where", 4)
    texts = list(bad.traverse(nodeclass=nodes.Text))
    texts[where % len(texts)].text = None
    try:
        t.translate(bad)
    except Exception:
        pass
    html = t.translate(to_tree(src))
    ctx.check(html == to_html(to_tree(src), rails, True), "another page after a failed translation")
    ctx.done()


CORE = c08.CORE + ["figure", "reftext", "comment", "prevs", "claimin"]
HARNESSES = [
    dict(fn=histories, batch=10, witness_rate=0.03, budget={"quick": 60, "thorough": 900},
         params={"before": ["theorem", "sections", "appendix", "cites", "labels", "prev", "prevstep", "caption",
                            "nolang", "unknowntag"], "of": ["theorem", "deepproof", "sections", "cites", "toc", "labels"],
                 "single": False},
         thorough={"before": CORE + list(FAIL), "of": CORE, "single": True},
         bounds="a manuscript before another one (quick: 10 and 6 kinds), labels may coincide, tools new or used"),
    dict(fn=api, batch=10, witness_rate=0.03, params={"of": ["theorem", "appendix", "cites", "unknownref", "labels"]},
         thorough={"of": CORE}, bounds="rsm.render after rsm.render or rsm.lint of another manuscript"),
    dict(fn=renderings, batch=10, witness_rate=0.03, params={"steps": 0}, thorough={"steps": 3},
         budget={"quick": 60, "thorough": 900},
         bounds=f"each of {len(PIECES)} constructs, up to 3 renderings with either renderer, new or used"),
    dict(fn=after_failure, batch=10, witness_rate=0.05, params={"of": ["theorem", "sections", "cites"]},
         thorough={"of": CORE}, bounds="a translator after a translation that failed at any of 4 texts"),
    dict(fn=files, batch=10, witness_rate=0.05, params={"n": 2, "of": ["theorem", "unknownref"]},
         thorough={"n": 3, "of": ["theorem", "unknownref", "sections", "cites"]}, budget={"quick": 60, "thorough": 600},
         bounds="2 (thorough 3) runs on a path whose file is rewritten in between, relative or absolute path, in 2 directories"),
]
