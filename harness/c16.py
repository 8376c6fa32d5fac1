"""C16: meta keys set exactly what they say on exactly their node."""

from . import frag as F
from .common import *

ASSUMPTIONS = [
    "keys are given in the documented forms: on own lines for blocks, in braces for inlines, lists in "
    "braces if they have several items, every key once and only on constructs that take it",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]

NODE = ["label", "types", "nonum", "reftext"]
TITLE = NODE + ["title"]
# name: (source, where {M} is the place of the meta lines, class, keys)
BLOCKS = {
    "theorem": (":theorem:\n{M}\nBody.\n\n::\n\n", "Theorem", TITLE),
    "definition": (":definition:\n{M}\nBody.\n\n::\n\n", "Definition", TITLE),
    "proof": (":proof:\n{M}\n:step: x ::\n\n::\n\n", "Proof", NODE),
    "step": (":proof:\n\n:step:\n{M}\n  x\n\n::\n\n::\n\n", "Step", NODE),
    "subproof": (":proof:\n\n:step: y\n\n:p:\n{M}\n:step: x ::\n\n::\n\n::\n\n::\n\n", "Subproof", NODE),
    "sketch": (":sketch:\n{M}\nx\n\n::\n\n", "Sketch", NODE),
    "itemize": (":itemize:\n{M}\n:item: x\n\n::\n\n", "Itemize", NODE),
    "enumerate": (":enumerate:\n{M}\n:item: x\n\n::\n\n", "Enumerate", NODE),
    "figure": (":figure:\n{M}\n:caption: x\n\n::\n\n", "Figure", NODE + ["path", "scale"]),
    "table": (":table:\n{M}\n:tbody:\n\n:tr: a : b ::\n\n::\n\n::\n\n", "Table", NODE),
    "codeblock": (":codeblock:\n{M}\nx = 1\n\n::\n\n", "CodeBlock", NODE + ["lang"]),
    "algorithm": (":algorithm:\n{M}\nx = 1\n\n::\n\n", "Algorithm", NODE),
    "mathblock": (":mathblock:\n{M}\nx = 1\n\n::\n\n", "MathBlock", NODE),
    "dollars": ("Hi.\n$$\n{M}\nx = 1\n$$\n\n", "MathBlock", NODE),
    "author": (":author:\n{M}::\n\n", "Author", ["label", "types", "name", "affiliation", "email"]),
    "abstract": (":abstract:\n{M}\nx\n\n::\n\n", "Abstract", ["label", "types", "keywords", "msc"]),
    "hash": ("## Tit\n{M}\nx\n\n", "Section", NODE),
    "subhash": ("## Sec\n\n### Tit\n{M}\nx\n\n", "Subsection", NODE),
}
INLINES = {
    "span": ("a :span: {M} x :: b.\n\n", "Span", NODE + ["strong", "emphas"]),
    "note": ("a :note: {M} x :: b.\n\n", "Note", ["label", "types"]),
    "claim": ("a :claim: {M} x :: b.\n\n", "Construct", ["label", "types"]),
    "let": ("a :let: {M} x :: b.\n\n", "Construct", ["label", "types"]),
    "draft": ("a :draft: {M} x :: b.\n\n", "Draft", ["label", "types"]),
    "math": ("a :math: {M} x :: b.\n\n", "Math", ["label", "types", "reftext"]),
    "dollar": ("a $ {M} x$ b.\n\n", "Math", ["label", "types", "reftext"]),
    "code": ("a :code: {M} x :: b.\n\n", "Code", ["label", "types", "reftext", "lang"]),
    "paragraph": (":paragraph: {M} x b.\n\n", "Paragraph", NODE + ["title"]),
    "item": (":itemize:\n\n:item: {M} x b.\n\n:item: c\n\n::\n\n", "Item", ["label", "types", "reftext"]),
    "td": (":table:\n\n:tbody:\n\n:tr:\n\n:td: {M} a ::\n\n:td: b ::\n\n::\n\n::\n\n::\n\n", "TableDatum", ["label", "types"]),
}
FLAGS = {"nonum", "strong", "emphas", "isclaim"}
LISTS = {"types", "keywords", "msc"}
FIXED = {"scale": "0.5", "path": "dir/foo.png", "lang": "python"}


def value(ctx, key, braces):
    """(as written, as meant)"""
    if key in FLAGS:
        return "", True
    if key in FIXED:
        return FIXED[key], FIXED[key]
    c = ctx.char("v_" + key, "aZ7")
    if key == "label":
        return "la" + c + "-x", "la" + c + "-x"
    if key == "types":
        n = ctx.choose("n_types", 2 + (ctx.params["long"]))
        items = ["ty" + c, "tz" + c, "tw" + c][: n + 1]
        return (items[0] if n == 0 else "{" + ", ".join(items) + "}"), items
    if key in LISTS:
        if ctx.params["keys"] == "all":
            words = ["k" + c + " and", key, "v", "v", "x y"] + ["u%d" % i for i in range(4)]
            words = words[: 1 + ctx.oneof("n_" + key, [0, 3, 8])]
            return words[0] if len(words) == 1 else "{" + ", ".join(words) + "}", words
        return "{k" + c + " and, " + key + ",v}", ["k" + c + " and", key, "v"]
    if key == "email":
        return "m" + c + "@x.y", "m" + c + "@x.y"
    v = "(" + key + ") v" + c + ctx.oneof("end_" + key, ctx.params["ends"])
    return v, v


def chosen(ctx, keys):
    """Some of the keys in any order."""
    out = []
    if ctx.params["keys"] == "all":
        out = ctx.oneof("order", [keys, keys[::-1]])
        return rotated(ctx, out)
    for k in range(ctx.params["keys"]):
        rest = [x for x in keys if x not in out]
        out.append(ctx.oneof("key%d" % k, rest + ["nothing"] if k else rest))
        if out[-1] == "nothing":
            out.pop()
            break
    return out


def rotated(ctx, keys):
    k = ctx.choose("turn", len(keys))
    return keys[k:] + keys[:k]


def attrs(node):
    skip = {"_parent", "_children", "start_point", "end_point", "src"}
    return {k: v for k, v in vars(node).items() if k not in skip}


def same_value(a, b):
    return a == b or isinstance(a, float) and isinstance(b, str) and str(a) == b


def compare(ctx, tree, bare, cls, idx, given):
    """All nodes equal those of the manuscript without the keys, but for what the keys say."""
    ns, bs = list(tree.traverse()), list(bare.traverse())
    ctx.check([n.__class__.__name__ for n in ns] == [n.__class__.__name__ for n in bs],
              "meta changes the structure of the manuscript")
    target = [n for n in ns if n.__class__.__name__ == cls][idx]
    for n, b in zip(ns, bs):
        want = attrs(b)
        what = "another node"
        if n is target:
            what = "the node"
            for k, v in given.items():
                want["reftext_template" if k == "reftext" else k] = v
        have = attrs(n)
        for k in want:
            if k == "lang" and n.__class__.__name__ == "SourceCode":
                continue
            ctx.check(k in have and same_value(have[k], want[k]), f"{k} of {what} is not what was given")
        ctx.check(set(have) == set(want), f"{what} has other attributes")
    return target


def visible(ctx, root, target, given, cls, hr):
    label = given.get("label", "")
    here = [e for e in root.iter() if e.get("data-nodeid") == str(target.nodeid)]
    if cls == "Algorithm":  # has no mark; the second of three
        here = [[e for e in root.iter() if "algorithm" in e.classes][1]]
    if cls == "Note":  # has no mark either; the second of three
        here = [[e for e in root.iter() if "note__content" in e.classes][1]]
    ctx.check(len(here) == 1, "the node has no element")
    e = here[0]
    if label:
        ctx.check(e.get("id") == label, "the label is not the id of the element")
        ctx.check(len(by_id(root, label)) == 1, "the label is the id of several elements")
    else:
        ctx.check(e.get("id") is None, "an element without label has an id")
    for t in given.get("types", []):
        ctx.check(t in e.classes, "a type is not a class of the element")
        for o in root.iter():
            if t in o.classes and o is not e:
                ctx.check(hr and "hr" in o.classes and any(x is e for x in o.iter()),
                          "a type is the class of another element")
    text = norm(content_text(root if cls in ("Manuscript",) else e))
    if "title" in given:
        ctx.check(text.count(given["title"]) == 1, "the title does not show")
    for k in ("name", "affiliation", "email"):
        if k in given:
            ctx.check(text.count(given[k]) == 1, f"the {k} does not show")
    if "email" in given:
        ctx.check(any(x.get("href") == "mailto:" + given["email"] for x in e.iter()), "the email is not linked")
    if "keywords" in given:
        ctx.check("Keywords: " + ", ".join(given["keywords"]) in text, "the keywords do not show")
    if "msc" in given:
        ctx.check("MSC: " + ", ".join(given["msc"]) in text, "the classes do not show")
    imgs = [x for x in e.iter() if x.tag == "img"]
    if "path" in given:
        ctx.check([x.get("src") for x in imgs] == [given["path"]], "the path is not that of the picture")
    if cls == "Figure":
        onload = (imgs[0].get("onload") or "") if imgs else ""
        ctx.check(("width" in onload) == ("scale" in given) and given.get("scale", "") in onload,
                  "the scale of the picture")
    for k, tag in (("strong", "strong"), ("emphas", "em")):
        if cls == "Span":
            ctx.check(any(x.tag == tag for x in e.iter()) == (k in given), f"{k} of a span")
    if cls in ("Code", "CodeBlock"):
        code = [x for x in e.iter() if x.tag == "code"]
        ctx.check(len(code) == 1 and ("python" in code[0].classes) == ("lang" in given), "the language of code")
    if "nonum" in given and cls in ("Theorem", "Definition", "Section", "Subsection"):
        ctx.check(not any(c.isdigit() for c in text.replace(given.get("title", "\0"), "").split(".")[0]),
                  "a number shows in spite of nonum")
    if "reftext" in given and label:
        links = [x for x in root.iter() if x.tag == "a" and x.get("href") == "#" + label]
        ctx.check(len(links) == 1 and norm(content_text(links[0])) == given["reftext"], "the text of a reference")


def finish(ctx, make, cls, given, copies):
    label = given.get("label")
    ref = f"See :ref:{label}::.\n\n" if label and cls != "Author" else ""

    def doc(m):
        parts = make(m)
        # the reference stands before, where no section has begun
        return ":rsm:\n" + parts[0] + "\n" + ref + parts[1] + "::\n"

    tree, bare = to_ast(doc(True)), to_ast(doc(False))
    n = len([x for x in bare.traverse() if x.__class__.__name__ == cls])
    own = 1 if ref and cls == "Paragraph" else 0
    idx = (n - own) // 3 + own if copies else 0
    target = compare(ctx, tree, bare, cls, idx, given)
    tree = transformer.Transformer().transform(tree)
    hr = ctx.flag("hr")
    html = to_html(tree, hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    visible(ctx, root, target, given, cls, hr)
    ctx.done()


def blocks(ctx):
    """Keys on lines of their own."""
    name = ctx.oneof("block", list(BLOCKS))
    src, cls, keys = BLOCKS[name]
    given, lines = {}, ""
    order = chosen(ctx, keys)
    sep, end = ctx.oneof("space", [(" ", ""), ("   ", "  ")]) if ctx.params["long"] else (" ", "  ")
    ind = ctx.oneof("indent", ["  ", ""]) if ctx.params["long"] else "  "
    for k in order:
        w, m = value(ctx, k, False)
        given[k] = m
        lines += ind + ":" + k + ":" + (sep + w if w else "") + (end if w and not w.endswith("}") else "") + "\n"

    def make(m):
        plain = src.replace("{M}", "")
        return "", plain + src.replace("{M}", lines if m else "") + plain

    finish(ctx, make, cls, given, True)


def inlines(ctx):
    """Keys in braces."""
    name = ctx.oneof("inline", list(INLINES))
    src, cls, keys = INLINES[name]
    given, parts = {}, []
    order = chosen(ctx, keys)
    sep, comma = ctx.oneof("space", [(" ", ", "), ("", " ,")]) if ctx.params["long"] else (" ", ", ")
    for k in order:
        w, m = value(ctx, k, True)
        given[k] = m
        parts.append(":" + k + ":" + (sep + w if w else ""))
    meta = "{" + comma.join(parts) + "}"

    def make(m):
        plain = src.replace(":paragraph: {M} ", "").replace(" {M}", "")
        return "", plain + (src.replace("{M}", meta) if m else plain) + plain

    finish(ctx, make, cls, given, True)


def all_keys(ctx):
    """All the keys of a construct at once."""
    (blocks if ctx.flag("isblock") else inlines)(ctx)


def manuscript(ctx):
    """Keys of the manuscript itself."""
    given, lines = {}, ""
    for k in chosen(ctx, ["label", "types", "title", "date", "reftext"]):
        w, m = value(ctx, k, False)
        given[k] = m
        lines += "  :" + k + ": " + w + "\n"

    finish(ctx, lambda m: (lines if m else "", "## S\n\nA b.\n\n"), "Manuscript", given, False)


HARNESSES = [
    dict(fn=blocks, batch=10, params={"keys": 2, "long": 0, "ends": ["."]}, thorough={"keys": 3, "long": 1, "ends": [".", "?!", ""]}, witness_rate=0.03,
         budget={"quick": 60, "thorough": 900},
         bounds=f"{len(BLOCKS)} kinds of blocks, any 1 to 2 (thorough 3) keys in any order, symbolic values"),
    dict(fn=inlines, batch=10, params={"keys": 2, "long": 1, "ends": ["."]}, thorough={"keys": 4, "long": 1, "ends": [".", "x"]}, witness_rate=0.03,
         budget={"quick": 60, "thorough": 900},
         bounds=f"{len(INLINES)} kinds of inlines, any 1 to 2 (thorough 4) keys in any order, symbolic values"),
    dict(fn=manuscript, batch=10, params={"keys": 3, "long": 0, "ends": [".", "?!", ""]}, thorough={"keys": 5, "long": 1, "ends": [".", "?!", ""]}, witness_rate=0.05,
         bounds="any 1 to 3 (thorough 5) keys of the manuscript in any order"),
    dict(fn=all_keys, batch=10, params={"keys": "all", "long": 0, "ends": ["."]}, thorough={"long": 1, "ends": [".", "?!", ", and x"]},
         witness_rate=0.03, budget={"quick": 60, "thorough": 600},
         bounds=f"{len(BLOCKS) + len(INLINES)} constructs with all their keys at once, in any rotation of two orders, lists of 1 to 9 items"),
]
