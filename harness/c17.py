"""C17: handrails add interaction, not content."""

from . import c07, c08, c16
from . import frag as F
from .common import *

ASSUMPTIONS = [
    "manuscripts are built from the documented constructs that the grammar accepts",
    "bibliography items show the text of their outside link only without handrails (with handrails "
    "the link is an icon in the info zone); spaces around math followed by a dot are C06's KF2",
    "the title's copy-link entry stands for the page itself and bibliography items have none",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]

ZONES = ["hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone", "hr-content-zone"]


def body_of(root):
    b = [e for e in root.iter() if e.tag == "body"]
    return b[0] if b else root


def doi_link(e):
    return e.tag == "a" and "bibitem-doi" in e.classes


def flow(elem):
    """Content of an element: (text pieces, ids, links, node ids with their parents)."""
    text, ids, links, nodeids, heads, dois = [], [], [], [], [], []
    stack = [(elem, None)]
    while stack:
        e, up = stack.pop()
        if isinstance(e, str):
            text.append(e)
            continue
        if e is not elem and is_chrome(e):
            dois += [x.get("href") for x in e.iter() if doi_link(x)]
            ids += [x.get("id") for x in e.iter() if doi_link(x) and x.get("id")]
            continue
        if e.get("id"):
            ids.append(e.get("id"))
        if doi_link(e):
            dois.append(e.get("href"))
            continue
        if e.tag == "a":
            links.append((e.get("href"), tuple(sorted(e.classes)), norm(e.text())))
        if e.get("data-nodeid") is not None:
            nodeids.append((e.get("data-nodeid"), up))
            up = e.get("data-nodeid")
        if e.tag in F.HEADS:
            heads.append((e.tag, norm(e.text()), up))
        for c in reversed(e.children):
            stack.append((c, up))
    return text, ids, links, nodeids, heads, dois


def squeeze(text):
    return "".join("".join(text).split())


def compare(ctx, plain, hand, what):
    wrapped = any("inline-math-wrapper" in e.classes for e in hand.iter())
    a, b = flow(plain), flow(hand)
    ctx.check(squeeze(a[0]) == squeeze(b[0]), f"{what}: handrails change the text")
    if not wrapped:
        ctx.check(norm("".join(a[0])) == norm("".join(b[0])), f"{what}: handrails change the spaces between words")
    ctx.check(sorted(a[1]) == sorted(b[1]), f"{what}: handrails change the ids")
    ctx.check(a[2] == b[2], f"{what}: handrails change the links")
    ctx.check(a[3] == b[3], f"{what}: handrails change which nodes the page shows or their nesting")
    ctx.check(a[4] == b[4], f"{what}: handrails change the headings")
    ctx.check(a[5] == b[5], f"{what}: handrails change the outside links")
    ps = {e.get("data-nodeid"): e for e in plain.iter() if e.get("data-nodeid") is not None}
    for e in hand.iter():
        n = e.get("data-nodeid")
        if n is None:
            continue
        p = ps[n]
        ctx.check(p.get("id") == e.get("id"), f"{what}: handrails change the id of an element")
        ctx.check(squeeze(flow(p)[0]) == squeeze(flow(e)[0]), f"{what}: handrails change the text of an element")


def handrails(ctx, hand, tree, what):
    """Zones, copy-link entries and numbers of all handrails; the nodes that have one."""
    by = {str(n.nodeid): n for n in tree.traverse()}
    having = []
    for e in hand.iter():
        if any(z in e.classes for z in ZONES + ["hr-info-zone"]):
            ctx.check("hr" in e.parent.classes, f"{what}: a zone of no handrail")
        if "hr" not in e.classes:
            continue
        kids = e.elems()
        ctx.check(len(kids) in (5, 6) and not norm(e.own_text()), f"{what}: a handrail lacks zones or has other content")
        got = [[c for c in k.classes if c.endswith("-zone")] for k in kids]
        want = [[z] for z in ZONES] + [["hr-info-zone"]] * (len(kids) - 5)
        ctx.check(got == want, f"{what}: the zones of a handrail are not in order")
        # the node: the element's own, or that of the element whose heading or item it is
        title = bibitem = False
        nid = e.get("data-nodeid")
        if nid is None:
            p = e.parent
            if p.get("data-nodeid") is not None:
                nid = p.get("data-nodeid")
            elif "manuscript" in p.parent.classes:
                title = True
                nid = p.parent.get("data-nodeid")
            else:
                mine = set(map(id, e.iter()))
                after = [x for x in p.iter() if x.get("data-nodeid") is not None and id(x) not in mine]
                ctx.check(bool(after), f"{what}: a handrail belongs to no node")
                nid = after[0].get("data-nodeid")
        ctx.check(nid in by, f"{what}: a handrail belongs to no node")
        node = by[nid]
        having.append(node)
        bibitem = isinstance(node, nodes.Bibitem)
        entries = [x for x in kids[1].iter() if "hr-menu-item" in x.classes and "link" in x.classes]
        if isinstance(node, nodes.Subproof):
            pass  # has no menu
        elif bibitem:
            ctx.check(not entries, f"{what}: an item of the bibliography has a copy-link entry")
        else:
            ctx.check(len(entries) == 1, f"{what}: a handrail has not one copy-link entry")
            on = "disabled" not in entries[0].classes
            ctx.check(on == (title or bool(node.label)),
                      f"{what}: the copy-link entry is " + ("enabled without a label" if on else "disabled despite a label"))
        labels = [norm(x.text()) for x in kids[1].iter() if "hr-menu-label" in x.classes]
        ctx.check(len(labels) <= 1 and not any("None" in x for x in labels), f"{what}: the menu of a handrail is wrongly labelled")
        nums = [x for x in e.iter() if ("step-number" in x.classes or "eqn-number" in x.classes)
                and x.parent.parent.parent is e]
        if isinstance(node, (nodes.Step, nodes.MathBlock)):
            num = node.full_number
            step = isinstance(node, nodes.Step)
            if num is None:
                ctx.check(not nums, f"{what}: an unnumbered node has a number in its handrail")
            else:
                ctx.check(len(nums) == 1 and ("step-number" in nums[0].classes) == step,
                          f"{what}: the number of a step or equation is not in its handrail")
                shown = ("⟨%s⟩" if step else "(%s)") % num
                ctx.check(norm(nums[0].text()) == shown, f"{what}: the number in the handrail is not that of the node")
        else:
            ctx.check(not nums, f"{what}: a handrail of another kind of node has a number")
    return having


def both(ctx, src, what):
    tree = to_tree(src)
    hand = body_of(parse_html(ctx, to_html(tree, True)))
    tree2 = to_tree(src)
    plain_html = to_html(tree2)
    ctx.observe(plain_html)
    plain = body_of(parse_html(ctx, plain_html))
    ctx.check(not any("hr" in e.classes for e in plain.iter()), f"{what}: a page without handrails has a handrail")
    compare(ctx, plain, hand, what)
    having = handrails(ctx, hand, tree, what)
    shown = {e.get("data-nodeid") for e in hand.iter()}
    for n in tree.traverse():
        if isinstance(n, (nodes.Theorem, nodes.Proof, nodes.Sketch, nodes.Step, nodes.Subproof, nodes.MathBlock,
                          nodes.Section, nodes.Contents, nodes.Bibliography, nodes.Bibitem)) \
                or n.__class__ is nodes.Paragraph and n.parent.__class__ is not nodes.Item:
            if str(n.nodeid) in shown:
                ctx.check(sum(h is n for h in having) == 1, f"{what}: a node has not one handrail")
    ctx.done()


def singles(ctx):
    """Every construct alone."""
    w = F.Words(ctx.char("m", "aZé"))
    n = ctx.oneof("a", SAFE)
    src, _ = c08.compose(ctx, [n], w)
    both(ctx, src, n)


SAFE = [n for n in c08.PIECES if n not in c08.OPAQUE]


def rows(ctx):
    """Several constructs in a row, in any order."""
    w = F.Words("")
    names = [ctx.oneof(f"a{k}", ctx.params["of"]) for k in range(ctx.params["n"])]
    w.mid = ctx.char("m", "aZ")
    if "toc" in names[1:] or names.count("appendix") > 1:
        ctx.stop()
    src, _ = c08.compose(ctx, names, w)
    both(ctx, src, " ".join(names))


def repeated(ctx):
    """One construct, or two in turn, many times."""
    w = F.Words(ctx.char("m", "aZ"))
    a = ctx.oneof("a", [n for n in ctx.params["of"] if n not in ("toc", "appendix")])
    b = ctx.oneof("b", [a, "theorem"])
    k = ctx.oneof("k", ctx.params["times"])
    src, _ = c08.compose(ctx, [a if i % 2 else b for i in range(k)], w)
    both(ctx, src, f"{k} times {a}, {b}")


def nested(ctx):
    """Constructs inside every block that can hold them, with another one after."""
    w = F.Words(ctx.char("m", "aZ"))
    outer = ctx.oneof("outer", F.OUTER)
    n = ctx.oneof("a", ctx.params["of"])
    s, _ = c08.PIECES[n](w)
    got = F.BLOCKS[outer](w, blk=lambda w, inl: (s, []))
    b = ctx.oneof("b", ["para", "mathalone"])
    s2, _ = c08.PIECES[b](w)
    both(ctx, F.manuscript(got[0] + s2), f"{n} in {outer}, {b}")


INSIDE = [n for n in c08.INSIDE if n in SAFE]


def keys(ctx):
    """Every construct with some of its meta keys, between others of its kind."""
    where = ctx.oneof("kind", list(c16.BLOCKS) + list(c16.INLINES))
    inline = where in c16.INLINES
    src, cls, ks = (c16.INLINES if inline else c16.BLOCKS)[where]
    given = []
    c = ctx.char("c", "aZ7")
    for k in ("label", "nonum", "title", "types", "reftext"):
        if k in ks and ctx.flag("with_" + k):
            given.append((k, {"label": "la" + c, "title": "Ti" + c, "types": "{ta, tb}",
                              "reftext": "Rt" + c, "nonum": ""}[k]))
    if where == "codeblock" or where == "code":
        given = [g for g in given if g[0] != "lang"]
    if where in ("author", "abstract"):
        given += [g for g in (("name", "Na"), ("keywords", "{ka, kb}")) if g[0] in ks]
    fmt = [f":{k}: {v}".rstrip() for k, v in given]
    if inline:
        meta = "{" + ", ".join(fmt) + "}" if fmt else ""
        text = src.replace("{M} ", meta + " " if meta else "")
    else:
        ind = "  "
        meta = "".join(f"{ind}{f}\n" for f in fmt)
        text = src.replace("{M}\n" if not meta and src.count("$$") else "{M}", meta if meta or not src.count("$$") else "")
    plain = src.replace("{M} " if inline else "{M}\n", "" if inline else ("" if src.count("$$") else "\n"))
    whole = f":rsm:\n  :title: Mtitle\n\n{text if where in ('author', 'abstract') else plain + text}::\n"
    if where == "paragraph" and not meta:
        ctx.stop()
    both(ctx, whole, f"{where} with {', '.join(k for k, _ in given)}")


def paragraphs(ctx):
    """Any sequence of text, inlines and displayed math, in places that hold a paragraph."""
    w = F.Words(ctx.char("m", "aZ"))
    host = ctx.oneof("host", ctx.params["hosts"])
    kinds = []
    for k in range(ctx.params["n"]):
        a = ctx.oneof(f"a{k}", [None] + ctx.params["atoms"] if k else ["text", "math", "mathdot", "strong"])
        if a is None:
            break
        kinds.append(a)
    if not c07.sensible(kinds):
        ctx.stop()
    src, exp = c07.in_host(host, *c07.run_para(w, kinds))
    both(ctx, F.manuscript(src), f"{' '.join(kinds)} in {host}")


HARNESSES = [
    dict(fn=paragraphs, batch=8, witness_rate=0.03, budget={"quick": 60, "thorough": 900},
         params={"n": 4, "hosts": ["para", "titled", "step"], "atoms": ["text", "math", "mathdot", "dmath", "claim"]},
         thorough={"n": 5, "hosts": ["para", "titled", "step", "item", "caption", "theorem", "stepend"],
                   "atoms": ["text", "math", "mathdot", "strong", "note", "dmath", "label", "claim"]},
         bounds="paragraphs of up to 4 (thorough 5) parts of 6 (thorough 9) kinds in 3 (thorough 7) places"),
    dict(fn=singles, batch=8, witness_rate=0.05, bounds=f"each of {len(SAFE)} constructs"),
    dict(fn=rows, params={"n": 3, "of": c08.CORE}, thorough={"n": 4, "of": c08.CORE}, batch=8, witness_rate=0.02,
         budget={"quick": 60, "thorough": 600},
         bounds=f"all sequences of 3 (thorough 4) of {len(c08.CORE)} constructs"),
    dict(fn=nested, batch=8, witness_rate=0.02, params={"of": INSIDE}, budget={"quick": 60, "thorough": 600},
         bounds=f"{len(INSIDE)} constructs inside 5 kinds of blocks, with another block after"),
    dict(fn=keys, batch=8, witness_rate=0.02, budget={"quick": 60, "thorough": 300},
         bounds=f"{len(c16.BLOCKS) + len(c16.INLINES)} constructs with and without label, title, types, "
                "reftext and nonum"),
    dict(fn=repeated, batch=8, params={"of": [n for n in c08.FEW if n in SAFE], "times": [4, 11]},
         thorough={"of": SAFE, "times": [3, 6, 25]}, witness_rate=0.02, budget={"quick": 60, "thorough": 300},
         bounds="4 or 11 (thorough 3, 6, 25) of one construct or of two in turn"),
]
