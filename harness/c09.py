"""C09: the table of contents mirrors the sections."""

from .common import *

ASSUMPTIONS = [
    "sections are nested as the grammar allows: no level is skipped; a table of contents stands "
    "after some other block, as the grammar wants it",
    "a section without a label (or whose label was taken by an earlier node) has nothing to link "
    "to: its entry has the empty link '#', as RSM's own tests pin",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]

LEVEL = {"sec": 2, "sub": 3, "ssub": 4}
EVENTS = ["sec", "sub", "ssub", "nsec", "nsub", "nssub", "app"]


class Sec:
    def __init__(self, level, title, label, nonum):
        self.level, self.title, self.label, self.nonum = level, title, label, nonum
        self.kids = []


def build(ctx, events, title, labels):
    """Source of the sections and the tree they must form; None if the grammar forbids it."""
    src, roots, path, flat, seen = "", [], [], [], []
    app = False
    for i, ev in enumerate(events):
        if ev is None:
            continue
        if ev == "app":
            if app:
                return None
            app = True
            path = []
            src += ":appendix:\n\n"
            continue
        nonum = ev[0] == "n"
        level = LEVEL[ev[1:] if nonum else ev]
        if level - 2 > len(path):
            return None
        path = path[: level - 2]
        lab = ""
        if labels == "all" or labels == "odd" and i % 2:
            lab = f"s{i}"
        elif labels == "dup":
            lab = f"s{i % 2}"
        elif callable(labels):
            lab = labels(i)
        t = title(i)
        src += "#" * level + f" {t[0]}\n" + (f"  :label: {lab}\n" if lab else "")
        src += ("  :nonum:\n" if nonum else "") + ("\n" if labels == "alike" else f"\nBody{i}.\n\n")
        s = Sec(level, t[1], "" if lab in seen else lab, nonum)
        seen.append(lab)
        (path[-1].kids if path else roots).append(s)
        path.append(s)
        flat.append(s)
    return src, roots, flat


def own(e):
    """Elements below e that are not part of handrails."""
    return [x for x in e.iter() if not is_chrome(x) and not any(is_chrome(y) for y in x.ancestors())]


def headings(ctx, root, flat):
    """The headings of the page, by section in document order."""
    hs = [e for e in own(root) if e.tag in ("h2", "h3", "h4") and e.parent is not None
          and any("section" in a.classes or "subsection" in a.classes or "subsubsection" in a.classes
                  for a in e.ancestors() if a.tag == "section")]
    hs = [e for e in hs if norm(e.text()) not in ("Table of Contents", "References")]
    ctx.check(len(hs) == len(flat), "headings are lost or doubled")
    for h, s in zip(hs, flat):
        ctx.check(norm(h.text()).endswith(norm(s.title)), "headings are out of order")
    return hs


def tags(e):
    return [x for x in e.children if not isinstance(x, str)]


def entries(ctx, ul):
    """The nested list below a table of contents: [(link, entries)]."""
    out = []
    for li in tags(ul):
        if is_chrome(li):
            continue
        ctx.check(li.tag == "li", "something else than an entry in the list")
        links = [e for e in tags(li) if e.tag == "a"]
        lists = [e for e in tags(li) if e.tag in ("ul", "ol")]
        ctx.check(len(links) == 1 and len(lists) <= 1, "an entry is not one link and at most one list")
        out.append((links[0], entries(ctx, lists[0]) if lists else []))
    return out


def compare(ctx, got, want, heads):
    ctx.check(len(got) == len(want), "an entry is lost, doubled, or in the wrong list")
    for (a, sub), s in zip(got, want):
        ctx.check(a.get("href") == "#" + s.label, "an entry does not link to its section")
        ctx.check(norm(a.text()) == norm(heads[id(s)].text()), "an entry shows another text than the heading")
        if s.nonum:
            ctx.check(norm(a.text()) == norm(s.title), "an unnumbered section has a number")
        compare(ctx, sub, s.kids, heads)


def verify(ctx, html, hr, made, tocs):
    src, roots, flat = made
    root = parse_html(ctx, html)
    hs = headings(ctx, root, flat)
    heads = {id(s): h for s, h in zip(flat, hs)}
    lists = [e for e in root.iter() if "contents" in e.classes]
    ctx.check(len(lists) == (1 if tocs else 0), "not exactly one table of contents")
    maps = [e for e in root.iter() if "minimap" in e.classes]
    if not tocs:
        ctx.check(not maps and "Table of Contents" not in content_text(root), "a table of contents is added")
        return
    compare(ctx, entries(ctx, lists[0]), roots, heads)
    ctx.check(content_text(root).count("Table of Contents") == 1, "the heading of the list is wrong")
    for s in flat:
        if s.label:
            hit = by_id(root, s.label)
            ctx.check(len(hit) == 1 and heads[id(s)] in list(hit[0].iter()), "the link leads elsewhere")
    ctx.check(bool(maps) == hr, "minimap without handrails, or none with them")
    for m in maps:
        dots = [e for e in m.iter() if e.tag == "circle" and e.get("r") in ("8", "6", "4")]
        ctx.check([{"8": 2, "6": 3, "4": 4}[e.get("r")] for e in dots if dot(m, e)] ==
                  [s.level for s in flat], "the minimap does not show every section once")
        links = [e for e in m.iter() if e.tag == "a"]
        if links:
            ctx.check([e.get("href") for e in links] == ["#" + s.label for s in flat],
                      "the minimap links to other sections")


def dot(m, e):
    """The outer one of the two circles drawn per section."""
    same = [x for x in m.iter() if x.tag == "circle" and x.get("cy") == e.get("cy")]
    return same[0] is e


PLACE = ["top", "insec", "end", "none"]


def options(events):
    """What may follow, as the grammar wants it."""
    depth = 0
    for ev in events:
        depth = 0 if ev == "app" else LEVEL[ev[1:] if ev[0] == "n" else ev] - 1
    out = [ev for ev in EVENTS if ev != "app" and LEVEL[ev[1:] if ev[0] == "n" else ev] - 2 <= depth]
    return out + ([] if "app" in events else ["app"])


def sequences(ctx):
    """Any sequence of levels, unnumbered sections and the appendix."""
    events = []
    for i in range(ctx.params["n"]):
        events.append(ctx.oneof(f"e{i}", options(events)))
    if events == ["app"]:
        ctx.stop()
    labels = ctx.oneof("labels", ctx.params["labels"])
    place = ctx.oneof("place", ctx.params["places"])
    hr = ctx.flag("hr")
    t = ctx.char("t", LETTERS)
    alike = labels == "alike"  # no label, no content, the same title
    run(ctx, events, lambda i: (f"Ti{t}" + ("" if alike else f"{i}"),) * 2, labels, place, hr)


def long(ctx):
    """Longer sequences of few kinds."""
    kinds = ctx.oneof("kinds", ctx.params["kinds"])
    events = ["sec"]
    for i in range(ctx.params["n"]):
        events.append(ctx.oneof(f"e{i}", [e for e in options(events) if e in kinds]))
    hr = ctx.flag("hr")
    run(ctx, events, lambda i: (f"T{i}", f"T{i}"), ctx.oneof("labels", ["all", "odd"]), "top", hr)


def any_labels(ctx):
    """Any labels, equal or not."""
    events = []
    for i in range(ctx.params["n"]):
        events.append(ctx.oneof(f"e{i}", [e for e in options(events) if e in ctx.params["kinds"]]))
    hr = ctx.flag("hr")
    names = [ctx.word(f"l{i}", ctx.params["len"], "abc-4") for i in range(ctx.params["n"])]
    run(ctx, events, lambda i: (f"T{i}", f"T{i}"), lambda i: "s" + names[i], "top", hr)


def run(ctx, events, title, labels, place, hr, second=None):
    made = build(ctx, events, title, labels)
    if made is None:
        ctx.stop()
    src, roots, flat = made
    toc = ":toc:\n\n"
    if place == "top":
        full = "Hi.\n\n" + toc + src
    elif place == "insec":
        if "Body0" not in src:
            ctx.stop()
        full = "Hi.\n\n" + src.replace("Body0.\n\n", "Body0.\n\n" + toc + "After.\n\n")
    elif place == "end":
        full = "Hi.\n\n" + src + toc + "End.\n\n"
    else:
        full = "Hi.\n\n" + src
    if second == "end":
        full += "More.\n\n" + toc + "Last.\n\n"
    elif second == "top":
        full = "More.\n\n" + toc + full
    full = ":rsm:\n  :title: Mt\n\n" + full + "::\n"
    tree, cap = with_capture(lambda: to_tree(full))
    html = to_html(tree, hr)
    ctx.observe(html)
    verify(ctx, html, hr, made,
           int(place != "none") + int(second is not None))
    warned = any("able" in m and "ontent" in m for m in cap.messages(logging.WARNING))
    ctx.check(warned == (place != "none" and second is not None), "warning about several tables is wrong")
    ctx.done()


def several(ctx):
    """Two tables of contents: only the first is kept."""
    hr = ctx.flag("hr")
    place = ctx.oneof("place", ["top", "insec", "end", "none"])
    second = ctx.oneof("second", ["top", "end"])
    t = ctx.char("t", "abZ7")
    events = ["sec"] + [ctx.oneof(f"e{i}", [None, "sub", "sec", "app"]) for i in range(2)]
    run(ctx, events, lambda i: (f"Ti{t}{i}", f"Ti{t}{i}"), ctx.oneof("labels", ["all", "none"]),
        place, hr, second)


CHARS = "aZ7.,;!?()'=+[]^_~|@-é"


def titles(ctx):
    """Any characters and escapes in titles."""
    hr = ctx.flag("hr")
    which = ctx.oneof("which", ctx.params["which"])
    src = vis = ""
    for k in range(ctx.params["n"]):
        kind = ctx.oneof(f"k{k}", ["char", "esc", "gap"])
        if kind == "char":
            c = ctx.char(f"c{k}", CHARS)
            src, vis = src + c, vis + c
        elif kind == "esc":
            c = ctx.char(f"c{k}", ":%$`*{#")
            src, vis = src + "\\" + c, vis + c
        else:
            src, vis = src + "  ", vis + " "
    full = {"sec": ["sec"], "sub": ["sec", "sub"], "ssub": ["sec", "sub", "ssub"], "nsec": ["nsec"],
            "nsub": ["sec", "nsub"]}[which]
    last = len(full) - 1
    run(ctx, full + ["sec"], lambda i: ("Q" + src + "w", "Q" + vis + "w") if i == last else (f"T{i}", f"T{i}"),
        "all", "top", hr)


HARNESSES = [
    dict(fn=sequences, params={"n": 4, "labels": ["all", "dup", "alike"], "places": ["top", "insec"]},
         thorough={"n": 6, "labels": ["all", "none", "odd", "dup", "alike"], "places": PLACE}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 1500},
         bounds="all sequences of 4 (thorough 6) sections of 3 levels, numbered or not, and an appendix, "
                "with 3 (thorough 5) patterns of labels (one: all sections look alike) and 2 (thorough 4) places of the table"),
    dict(fn=any_labels, params={"n": 3, "len": 1, "kinds": ["sec", "sub", "nsec"]},
         thorough={"n": 4, "len": 2, "kinds": EVENTS[:-1]}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 600},
         bounds="all sequences of 3 (thorough 4) sections with symbolic labels of 2 (thorough 3) characters"),
    dict(fn=several, witness_rate=0.05, bounds="two tables of contents in 4 x 2 places, up to 3 sections"),
    dict(fn=titles, params={"n": 2, "which": ["sec", "ssub", "nsub"]}, thorough={"n": 3, "which": ["sec", "sub", "ssub", "nsec", "nsub"]}, witness_rate=0.05,
         bounds="titles with 2 (thorough 3) symbolic characters, escapes or gaps, in sections of 3 (thorough 5) kinds"),
    dict(fn=long, params={"n": 6, "kinds": [["sec", "sub", "ssub"], ["sec", "nsec"]]}, thorough={"n": 8, "kinds": [["sec", "sub", "ssub"], ["sec", "nsub", "sub"]]},
         witness_rate=0.02, budget={"quick": 60, "thorough": 600},
         bounds="all sequences of 7 (thorough 9) sections of 3 levels, or numbered or not"),
]
