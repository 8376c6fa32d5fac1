"""C06: all text reaches the page once, in order, and verbatim text unchanged."""

from .common import *
from . import frag as F

ASSUMPTIONS = [
    "sources that the grammar rejects are outside",
    "white space directly inside the ends of an inline (as in '*foo *') is not text; where two "
    "inlines, or an inline and a construct, touch without white space, one space may be shown",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]

DELIMS = ":%$`*{#"
FEW = "ab0.,é"
PLAIN = "abz059AZ.,;!?()-'\"=+[]^_~|@é→"
# places for text; {0} is the text
PLACES = {
    "para": "{0}\n\n",
    "item": ":itemize:\n\n  :item: {0}\n\n  :item: foo\n\n::\n\n",
    "td": ":table:\n\n:tbody:\n\n:tr:\n\n:td: {0} ::\n\n:td: foo ::\n\n::\n\n::\n\n::\n\n",
    "tr": ":table:\n\n:tbody:\n\n:tr: {0} : foo ::\n\n::\n\n::\n\n",
    "caption": ":figure:\n  :path: foo.png\n\n  :caption: {0}\n\n::\n\n",
    "tcaption": ":table:\n\n:tbody:\n\n:tr: a : foo ::\n\n::\n\n:caption: {0}\n\n::\n\n",
    "note": "foo :note: {0}:: bar\n\n",
    "strong": "foo *{0}* bar\n\n",
    "emph": "foo /{0}/ bar\n\n",
    "span": "foo :span: {{:strong:}} {0}:: bar\n\n",
    "claim": "foo :claim: {0} :: bar\n\n",
    "draft": "foo :draft: {0} :: bar\n\n",
    "abstract": ":abstract:\n\n{0}\n\n::\n\n",
    "step": ":proof:\n\n:step: {0} ::\n\n::\n\n",
    "sketch": ":sketch:\n\n{0}\n\n::\n\n",
    "theorem": ":theorem:\n\n{0}\n\n::\n\n",
    "section": "## {0}\n\nfoo\n\n",
    "subsub": "## Foo\n\n### Bar\n\n#### {0}\n\nfoo\n\n",
    "thmtitle": ":theorem:\n  :title: {0}\n\nfoo\n\n::\n\n",
    "pgtitle": ":paragraph: {{:title: {0}}} foo\n\n",
    "title": None,
    "ref": "foo :ref:base,{0}:: bar\n\n",
    "url": "foo :url:http://xy.z,{0}:: bar\n\n",
}
ONELINE = ("section", "subsub", "thmtitle", "pgtitle", "title", "ref", "url")


def clean(text):
    """The visible form of source text (white space squeezed later)."""
    out, i = "", 0
    while i < len(text):
        if text[i] == "\\" and i + 1 < len(text) and text[i + 1] in DELIMS:
            i += 1
        out += text[i]
        i += 1
    return out


def accepted(src):
    return not tsparser.TSParser().parse(src, abstractify=False).root_node.has_error


def page_text(root):
    """Visible text of the whole page, without what handrails add around the content."""
    return norm(content_text(root))


def marked_text(ctx, root, what):
    """Text between the marker words 'Q' and 'Z', which occur once each in the body."""
    body = [e for e in root.iter() if e.tag == "body"]
    body = body[0] if body else root
    t = content_text(body)
    ctx.check(t.count("Q") == 1 and t.count("Z8") == 1, f"{what}: text is lost or doubled")
    return t.split("Q", 1)[1].split("Z8", 1)[0]


def text(ctx):
    """Any text, with escapes, comments, line breaks and any other characters, in any place."""
    place = ctx.oneof("place", ctx.params["places"])
    hr = ctx.flag("hr")
    src, want = "", ""
    kinds = ["char", "esc", "gap"] + ([] if place in ONELINE else ["line", "comment"])
    last = None
    for k in range(ctx.params["n"]):
        kind = ctx.oneof(f"k{k}", ctx.params.get("kinds") or kinds + ["back"])
        if kind in ("line", "comment") and place in ONELINE:
            ctx.stop()
        if kind in ("gap", "line", "comment") and last in ("gap", "line", "comment"):
            ctx.stop()
        last = kind
        if kind == "char":
            c = ctx.char(f"c{k}", PLAIN if ctx.params["all"] else FEW)
            src, want = src + c, want + c
        elif kind == "esc":
            c = ctx.char(f"c{k}", DELIMS)
            src, want = src + "\\" + c, want + c
        elif kind == "back":
            c = ctx.char(f"c{k}", "abz")
            src, want = src + "\\" + c, want + "\\" + c
        elif kind == "gap":
            src, want = src + ctx.oneof(f"g{k}", ["   ", "\t"]), want + " "
        elif kind == "line":
            src, want = src + " \n  ", want + " "
        elif kind == "comment":
            src, want = src + "% com" + ctx.char(f"c{k}", "a0:*{$") + "ment\n", want + " "
    src = "Qa" + src + "bZ8"
    if place == "title":
        full = F.manuscript("foo\n\n", title=src, bib=False)
    else:
        full = F.manuscript(PLACES[place].format(src), bib=False)
    if not accepted(full):
        ctx.stop()
    html = to_html(to_tree(full), hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    got = marked_text(ctx, root, place)
    ctx.check(norm(got) == norm("a" + want + "b"), f"{place}: text is changed")
    if place == "title":
        ts = [e for e in root.iter() if e.tag == "title"]
        ctx.check(len(ts) < 2, "two titles")
    ctx.done()


# --------------------------------------------------------------- spacing between inlines

GAPS = ["", " ", "  ", "\n", " \n  ", "\n% com\n", " % com\n", "\n% com\n% com\n"]
SPACED = ("strong", "emph", "span", "span2", "note", "claim", "let", "draft", "math", "mathtag", "code",
          "codetag", "ref", "url", "cite")


def visible(exp):
    out = ""
    for x in exp:
        out += x if isinstance(x, str) else visible(x[1:])
    return out


def spacing(ctx):
    """Any atoms with any white space, or none, between them."""
    host = ctx.oneof("host", ctx.params["hosts"])
    hr = ctx.flag("hr")
    w = F.Words(ctx.char("m", ctx.params["mid"]))
    src, want = "", []  # want: (required gap, visible text)
    prev = None
    for k in range(ctx.params["n"]):
        a = ctx.oneof(f"a{k}", ctx.params["atoms"])
        g = ctx.oneof(f"g{k}", ctx.params["gaps"]) if k else ""
        if a == "word":
            s, e = w(), None
            e = s
        elif a == "punct":
            s = e = ctx.char(f"p{k}", ".;)")
        else:
            s, e = F.INLINES[a](w)
            e = norm(visible(e))
        if prev is None:
            need = "none"
        elif g:
            need = "space"
        elif prev in SPACED and a in SPACED or "claim" in (prev, a) or "let" in (prev, a):
            need = "any"
        else:
            need = "none"
        src += g + s
        want.append((need, e, a))
        prev = a
    src = "QQ " + src + " ZZ8"
    full = F.manuscript(PLACES[host].format(src), bib=True)
    if not accepted(full):
        ctx.stop()
    html = to_html(to_tree(full), hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    got = norm(F.flat(F.skeleton(root)).replace("|", " "))
    ctx.check(got.count("QQ ") == 1 and got.count("ZZ8") == 1, "text is lost or doubled")
    got = got.split("QQ", 1)[1].split("ZZ8", 1)[0].strip()
    pos = 0
    for k, (need, e, a) in enumerate(want):
        if hr and a in ("math", "mathtag") and need == "none" and got[pos : pos + 1] == " ":
            # pinned by RSM's own tests: math and a period after it are wrapped together
            if k + 1 < len(want) and want[k + 1][0] == "none" and want[k + 1][1][:1] == ".":
                ctx.known("KF2", "handrails show a space between a character and the math that "
                          "follows it without space, if a period follows the math")
        if need != "none" and got[pos : pos + 1] == " ":
            pos += 1
        elif need == "space":
            ctx.fail("words are glued together")
        ctx.check(got[pos : pos + len(e)] == e, "text is changed, split, or lost")
        pos += len(e)
    ctx.check(pos == len(got), "text is added")
    ctx.done()


def lines(ctx):
    """Longer runs of words and inlines, each on the same line as the one before or on the next."""
    spacing(ctx)


# --------------------------------------------------------------------------- verbatim text

VERB = {
    "math": ("foo ${0}$ bar\n\n", "math"),
    "mathtag": ("foo :math: {0} :: bar\n\n", "math"),
    "code": ("foo `{0}` bar\n\n", "code"),
    "codetag": ("foo :code: {0} :: bar\n\n", "code"),
    "mathblock": ("foo\n$$\n{0}\n$$\nbar\n\n", "mathblock"),
    "mathmeta": ("foo\n$$\n  :label: lab\n\n{0}\n$$\nbar\n\n", "mathblock"),
    "mathblocktag": (":mathblock:\n\n{0}\n\n::\n\n", "mathblock"),
    "codeblock": (":codeblock:\n\n{0}\n\n::\n\n", "codeblock"),
    "codelang": (":codeblock:\n  :lang: python\n\n{0}\n\n::\n\n", "codeblock"),
    "algorithm": (":algorithm:\n\n{0}\n\n::\n\n", "algorithm"),
}
VCHARS = "aZ0.,:;!?()-'\"=+[]^_~|@\\/*%#{}$`é"
VGAPS = [" ", "   ", "\t", "\n", "\n    ", "\n\n  "]


def verb_text(root, kind):
    hit = [e for e in root.iter() if kind in e.classes
           and not any(is_chrome(x) for x in e.ancestors())]
    return hit, [content_text(e) for e in hit]


def verb_chars(ctx, host):
    """All characters but the one that ends the contents."""
    cs = VCHARS if ctx.params["all"] else "a0.:\\%#{}$`*é"
    return "".join(c for c in cs if not (c == "$" and VERB[host][1].startswith("math"))
                   and not (c == "`" and VERB[host][1] == "code"))


def chars(ctx):
    """Every single character in every place."""
    text(ctx)


def verbchars(ctx):
    """Every single character in every kind of verbatim text."""
    verbatim(ctx)


def verbatim(ctx):
    """Any characters and white space inside math, code and algorithms."""
    host = ctx.oneof("host", ctx.params["hosts"])
    hr = ctx.flag("hr")
    src = ""
    last = "x"
    for k in range(ctx.params["n"]):
        kind = ctx.oneof(f"k{k}", ["char", "gap"])
        if kind == "gap" and last == "gap":
            ctx.stop()
        last = kind
        if kind == "char":
            if host == "codelang":  # the highlighter of another package sees these: no symbols
                src += ctx.oneof(f"c{k}", list("aZ0.-=(:\\%#{}$\"'"))
            else:
                src += ctx.char(f"c{k}", verb_chars(ctx, host))
        else:
            src += ctx.oneof(f"c{k}", VGAPS)
    src = "Qa" + src + "bZ8"
    body, kind = VERB[host]
    full = F.manuscript(body.format(src), bib=False)
    if not accepted(full):
        ctx.stop()
    html = to_html(to_tree(full), hr)
    if host != "codelang":
        ctx.observe(html)
    root = parse_html(ctx, html)
    hit, texts = verb_text(root, kind)
    ctx.check(len(hit) == 1, f"{host}: element is lost or doubled")
    got = texts[0].strip()
    if kind == "math":
        ctx.check(got.startswith("\\(") and got.endswith("\\)"), "math delimiters are wrong")
        got = got[2:-2].strip()
    if kind == "mathblock":
        ctx.check(got.startswith("$$"), "math delimiters are wrong")
        end = got.rindex("$$")
        got = got[2:end].strip()
    ctx.check(got == src, f"{host}: contents are changed")
    ctx.check(page_text(root).count("Q") == 1, f"{host}: contents are doubled")
    ctx.done()


MARKUP = {"para": "{0}\n\n", "item": PLACES["item"], "section": PLACES["section"],
          "math": VERB["math"][0], "code": VERB["code"][0], "codeblock": VERB["codeblock"][0],
          "codelang": VERB["codelang"][0], "mathblock": VERB["mathblock"][0]}


def markup(ctx):
    """Characters that mean something in HTML."""
    host = ctx.oneof("host", list(MARKUP))
    hr = ctx.flag("hr")
    c = "b" if host == "codelang" else ctx.char("c", "abz")
    what = ctx.oneof("what", ["<{}", "<{}>", "&lt;{}", "</{}>", "&amp;{}"]).format(c)
    src = F.manuscript(MARKUP[host].format("Qa" + what + "bZ8"), bib=False)
    if not accepted(src):
        ctx.stop()
    html = to_html(to_tree(src), hr)
    if host != "codelang":
        ctx.observe(html)
    try:
        got = norm(content_text(H.parse(html)))
    except H.Malformed:
        got = ""
    if "Qa" + what + "bZ8" not in got:
        ctx.known("KF3", "'<' and '&' of the source are not escaped in the HTML")
    ctx.done()


def order(ctx):
    """Text of two blocks appears once each and in order, whatever the blocks."""
    w = F.Words(ctx.char("m", "aZ3"))
    hr = ctx.flag("hr")
    a = ctx.oneof("a", list(F.BLOCKS))
    i = ctx.oneof("i", ctx.params["inl"])
    b = ctx.oneof("b", list(F.BLOCKS))
    frag = F.join(F.BLOCKS[a](w, F.inline(i)), F.BLOCKS[b](w, F.inline(i)))
    html = to_html(to_tree(F.manuscript(frag[0])), hr)
    ctx.observe(html)
    F.same_text(ctx, parse_html(ctx, html), F.BASE_EXP + frag[1], f"{a}, {b}")
    ctx.done()


HARNESSES = [
    dict(fn=chars, params={"n": 1, "all": True, "places": list(PLACES)}, witness_rate=0.02,
         bounds="any character, escape, gap, line break or comment within a word, in 23 places"),
    dict(fn=text, params={"n": 2, "all": False, "places": list(PLACES)}, thorough={"n": 3},
         witness_rate=0.02, budget={"quick": 90, "thorough": 1500},
         bounds="2 (thorough 3) characters out of 6, escapes, gaps, line breaks or comments within a word, in 23 places"),
    dict(fn=spacing, params={"n": 3, "hosts": ["para"],
                             "atoms": ["word", "punct", "strong", "math", "ref", "cite"],
                             "mid": "aZ", "gaps": ["", "  ", "\n", "\n% com\n"]},
         thorough={"n": 3, "hosts": ["para", "item", "td", "note", "step", "caption"],
                   "atoms": ["word", "punct"] + list(F.INLINES)[1:],
                   "mid": "aZé", "gaps": GAPS},
         witness_rate=0.02, budget={"quick": 90, "thorough": 1500},
         bounds="3 atoms out of 6 (thorough 16) kinds with 4 (thorough 8) kinds of white space, line breaks and comments between, in 1 (thorough 6) places"),
    dict(fn=lines, params={"n": 6, "hosts": ["para"], "atoms": ["word", "strong"], "mid": "a", "gaps": [" ", "\n"]},
         thorough={"n": 7, "hosts": ["para", "item", "theorem", "caption"], "gaps": [" ", "\n", "\n% com\n"]},
         witness_rate=0.01, budget={"quick": 90, "thorough": 900},
         bounds="6 (thorough 7) words or strong words, spaces or line breaks (thorough: and comments) between, in 1 "
                "(thorough 4) places"),
    dict(fn=verbchars, params={"n": 1, "all": True, "hosts": list(VERB)}, witness_rate=0.02,
         bounds="any character or white space within a word, in 10 kinds of verbatim text"),
    dict(fn=verbatim, params={"n": 2, "all": False, "hosts": list(VERB)}, thorough={"n": 3}, witness_rate=0.02,
         budget={"quick": 90, "thorough": 1500},
         bounds="2 (thorough 3) characters out of 12 or white spaces within a word, in 10 kinds of verbatim text"),
    dict(fn=markup, bounds="5 forms of HTML markup in 8 places"),
    dict(fn=order, params={"inl": ["text", "math"]}, thorough={"inl": ["text", "strong", "note", "math", "ref"]}, witness_rate=0.02, budget={"quick": 60, "thorough": 300},
         bounds="all pairs of 26 kinds of blocks with 2 (thorough 5) kinds of inlines"),
]
