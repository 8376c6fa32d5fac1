"""C01: a reference leads to the node its label names."""

from .common import *
from . import docgen as D

ASSUMPTIONS = [
    "labels and custom texts are words over letters, digits, '-' and '_' (the grammar "
    "treats all letters alike and all digits alike)",
    "the compiled tree-sitter grammar is executed, not encoded: it runs on one "
    "representative of each character class",
]

LAB = "abc"
PLACES = [
    "QQ {r} ZZ\n\n",
    ":theorem:\n\nQQ {r} ZZ\n\n::\n\n",
    ":itemize:\n\n  :item: QQ {r} ZZ\n\n::\n\n",
    ":proof:\n\n:step: QQ {r} ZZ ::\n\n::\n\n",
    ":proof:\n\n:step: Foo.\n\n  :p:\n\n  :step: QQ {r} ZZ ::\n\n  ::\n\n::\n\n::\n\n",
    "Foo :note: QQ {r} ZZ:: bar.\n\n",
    "Foo :span: {{:strong:}} QQ {r} ZZ:: bar.\n\n",
    "Foo *QQ {r} ZZ* bar.\n\n",
    "Foo :claim: QQ {r} ZZ :: bar.\n\n",
    ":figure:\n  :path: foo.png\n\n  :caption: QQ {r} ZZ.\n\n::\n\n",
    ":table:\n\n:tbody:\n\n:tr:\n\n:td: QQ {r} ZZ ::\n\n::\n\n::\n\n::\n\n",
    ":paragraph: {{:title: Pt}} QQ {r} ZZ\n\n",
    "## Other\n\nQQ {r} ZZ\n\n",
    "Foo\n$$\nx\n$$\nQQ {r} ZZ\n\n",
    ":draft: QQ {r} ZZ ::\n\n",
]


def _expect_link(ctx, root, start, end, label, text, what):
    got, elems = between(root, start, end)
    ctx.check(got is not None, f"{what}: text around the reference is lost")
    links = [e for e in elems if e.tag == "a"]
    ctx.check(len(links) == 1, f"{what}: not rendered as one link")
    a = links[0]
    ctx.check(a.get("href") == "#" + label, f"{what}: link to the wrong place")
    ctx.check("reference" in a.classes, f"{what}: link is not marked as reference")
    ctx.check(norm(a.text()) == text, f"{what}: shows the wrong text")
    ctx.check(norm(got) == text, f"{what}: extra text around the link")
    dest = [e for e in root.iter() if e.get("id") == label]
    ctx.check(len(dest) == 1, f"{what}: label does not identify one element")
    return dest[0]


def _expect_unknown(ctx, root, start, end, label, cap, what):
    got, elems = between(root, start, end)
    ctx.check(got is not None, f"{what}: text around the reference is lost")
    ctx.check(all(e.tag != "a" for e in elems), f"{what}: unknown label became a link")
    ctx.check(label in got, f"{what}: unknown label is not shown")
    ctx.check("error" in got.lower() or any("error" in e.classes for e in elems),
              f"{what}: unknown label is not shown as an error")
    ctx.check(any(label in m for m in cap.messages(logging.WARNING)),
              f"{what}: no warning for the unknown label")


def collisions(ctx):
    """Two labelled nodes of any kinds, equal or different labels, one reference."""
    kinds = list(D.KINDS)
    k1 = ctx.oneof("k1", kinds)
    k2 = ctx.oneof("k2", kinds)
    # labels are symbolic: which of them coincide is decided by the solver
    l1, l2, r = ctx.word("l1", 1, LAB), ctx.word("l2", 1, LAB), ctx.word("r", 1, LAB)
    hr = ctx.flag("handrails")
    first = ctx.params.get("both_orders") and ctx.flag("ref_first")
    ref = f"QQ :ref:{r}:: ZZ\n\n"
    num = D.Num()
    num.section()
    s1, t1 = D.emit(k1, l1, num)
    s2, t2 = D.emit(k2, l2, num)
    body = D.section("Sone") + "Intro.\n\n" + (ref if first else "") + s1 + s2 + ("" if first else ref)
    src = D.manuscript(body)
    tree, cap = with_capture(lambda: to_tree(src))
    html = to_html(tree, hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    ctx.check(not dup_ids(root), "an id occurs twice")
    if l1 == l2:
        ctx.check(any(l1 in m for m in cap.messages(logging.WARNING)),
                  "no warning for a duplicate label")
    if r == l1:
        dest = _expect_link(ctx, root, "QQ", "ZZ", r, t1, f"{k1},{k2} ref to first")
    elif r == l2:
        dest = _expect_link(ctx, root, "QQ", "ZZ", r, t2, f"{k1},{k2} ref to second")
    else:
        _expect_unknown(ctx, root, "QQ", "ZZ", r, cap, f"{k1},{k2}")
    ctx.done()


def places(ctx):
    """One labelled node; a reference, plain or with its own text, in every place text may be."""
    place = ctx.oneof("place", PLACES)
    kind = ctx.oneof("kind", ["theorem", "section", "mathblock", "item", "span"])
    n = ctx.params["n"]
    alpha, talpha = ctx.params["alpha"], ctx.params["talpha"]
    l1 = ctx.char("l1a", "abx") + ctx.word("l1", n - 1, alpha)
    r = ctx.char("ra", "abx") + ctx.word("r", n - 1, alpha)
    custom = ctx.flag("custom")
    text = ctx.char("ta", talpha.strip()) + ctx.word("t", 1, talpha) + "w"
    before = ctx.flag("before")
    hr = ctx.flag("handrails")
    num = D.Num()
    num.section()
    ref = f":ref:{r},{text}::" if custom else f":ref:{r}::"
    p = place.format(r=ref)
    if before:  # the surroundings of the reference may take a number themselves
        if p.startswith("##"):
            num.section()
        if p.startswith(":theorem:"):
            num.take("thm")
        if "$$" in p:
            num.take("eq")
    s1, t1 = D.emit(kind, l1, num)
    body = D.section("Sone") + "Intro.\n\n" + (p + s1 if before else s1 + p)
    tree, cap = with_capture(lambda: to_tree(D.manuscript(body)))
    html = to_html(tree, hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    ctx.check(not dup_ids(root), "an id occurs twice")
    if r == l1:
        want = norm(text) if custom else t1
        _expect_link(ctx, root, "QQ", "ZZ", r, want, f"{kind} from {place!r}")
    else:
        _expect_unknown(ctx, root, "QQ", "ZZ", r, cap, f"{kind} from {place!r}")
    ctx.done()


def reftext_key(ctx):
    """A node may carry its own default reference text."""
    kind = ctx.oneof("kind", ["theorem", "lemma", "section", "subsection", "figure", "table",
                              "algorithm", "itemize", "codeblock", "proof", "step", "mathblock"])
    form = ctx.oneof("form", ["{w}", "{w} foo", "The {w}"])
    w = ctx.word("w", 2, "abS7")
    nth = ctx.choose("nth", 2)
    hr = ctx.flag("handrails")
    num = D.Num()
    num.section()
    body = D.section("Sone") + "Intro.\n\n"
    if nth:
        s, _ = D.emit(kind, "zz", num)
        body += s
    s, _ = D.emit(kind, "aa", num)
    want = form.format(w=w)
    s = s.replace("  :label: aa\n", f"  :label: aa\n  :reftext: {want}\n")
    body += s + "QQ :ref:aa:: ZZ and KK :ref:aa,own:: YY\n\n"
    html = to_html(to_tree(D.manuscript(body)), hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    _expect_link(ctx, root, "QQ", "ZZ", "aa", want, f"{kind} with reftext")
    _expect_link(ctx, root, "KK", "YY", "aa", "own", f"{kind} with reftext and own text")
    ctx.done()


def many(ctx):
    """Several references to several nodes: each is resolved on its own."""
    n = ctx.params["refs"]
    labs = [ctx.word(f"l{i}", 1, "abcd") for i in range(3)]
    refs = [ctx.word(f"r{i}", 1, "abcde") for i in range(n)]
    hr = ctx.flag("handrails")
    custom = [ctx.flag(f"c{i}") for i in range(n)]
    num = D.Num()
    num.section()
    body = D.section("Sone") + "Intro.\n\n"
    texts = []
    marks = [("QA", "ZA"), ("QB", "ZB"), ("QC", "ZC"), ("QD", "ZD")]
    for i, kind in enumerate(["lemma", "figure", "theorem"]):
        s, t = D.emit(kind, labs[i], num)
        texts.append(t)
        body += s
        if i < n:
            own = f",own{i}" if custom[i] else ""
            body += f"{marks[i][0]} :ref:{refs[i]}{own}:: {marks[i][1]}\n\n"
    tree, cap = with_capture(lambda: to_tree(D.manuscript(body)))
    html = to_html(tree, hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    ctx.check(not dup_ids(root), "an id occurs twice")
    for i in range(n):
        hit = None
        for j in range(3):
            if refs[i] == labs[j]:
                hit = j
                break
        if hit is None:
            _expect_unknown(ctx, root, marks[i][0], marks[i][1], refs[i], cap, f"ref {i}")
        else:
            _expect_link(ctx, root, marks[i][0], marks[i][1], refs[i],
                         f"own{i}" if custom[i] else texts[hit], f"ref {i}")
    ctx.done()


def lots(ctx):
    """Any number of references to one node, with other references between."""
    n = ctx.int("n", 1, ctx.params["max"])
    kind = ctx.oneof("kind", ["theorem", "section", "item", "step"])
    every = ctx.oneof("other", [0, 1, 2, 3])
    early = ctx.flag("early")
    hr = ctx.flag("hr")
    num = D.Num()
    num.section()
    s, t = D.emit(kind, "aa", num)
    refs, i, other = "", 0, []
    while i < n:  # the solver decides the loop bound
        own = i % 3 == 2
        refs += f"Q{i}Q :ref:aa{',own' if own else ''}:: Z{i}Z. "
        if every and i % every == 0:
            refs += f"O{i}O :ref:oo:: P{i}P. "
            other.append(i)
        i += 1
    refs += "\n\n"
    body = D.section("Sone") + "Intro :span: {:label: oo} o::.\n\n" + refs * early + s + refs * (not early)
    html = to_html(to_tree(D.manuscript(body)), hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    ctx.check(not dup_ids(root), "an id occurs twice")
    for j in range(i):
        _expect_link(ctx, root, f"Q{j}Q", f"Z{j}Z", "aa", "own" if j % 3 == 2 else t, f"ref {j}")
    for j in other:
        _expect_link(ctx, root, f"O{j}O", f"P{j}P", "oo", "Span", f"other ref {j}")
    ctx.done()


def ids(ctx):
    """Every id of a page with a table of contents, citations, and labels occurs once."""
    hr = ctx.flag("hr")
    toc = ctx.flag("toc")
    lab = ctx.oneof("lab", ["w", *GEN])
    kind = ctx.oneof("kind", list(D.KINDS) if lab == "w" else ["theorem", "section", "span", "item", "step", "figure"])
    if lab == "w":
        lab = ctx.word("l", 2, "abZ-3") + "w"
    more = toc and ctx.flag("more")
    cites = ctx.choose("cites", 3)
    two = cites and ctx.flag("two")
    slab = "sl" if lab == "mm-sl" or toc and ctx.flag("slab") else ""
    num = D.Num()
    num.section()
    s, _ = D.emit(kind, lab, num)
    cite = "Foo :cite:kk,kk:: bar.\n\n" if two else "Foo :cite:kk:: bar.\n\n"
    src = D.manuscript("Hi.\n\n" + (":toc:\n\n" if toc else "") + D.section("Sone", slab) + s
                       + "## Stwo\n\nX.\n\n" * more + cite * cites + ":bibliography: ::\n\n" * bool(cites),
                       tail=CITED if cites else "")
    html = to_html(to_tree(src), hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    dups = dup_ids(root, ())
    cite = [d for d in dups if d == lab and "-" in lab and lab in GEN]
    mini = [d for d in dups if hr and toc and d == "mm-"]
    mask = [d for d in dups if hr and toc and d == "gradient-mask"]
    ctx.check(len(dups) == len(cite) + len(mini) + len(mask) and len(cite) <= 1 and len(mask) <= 1,
              "an id occurs twice")
    if cite:
        ctx.known("KF4", "a label spelt like the generated id of a citation, of the link of a bibliography "
                  "item, or of a minimap circle is on two elements")
    if mini:
        ctx.known("KF5", "with handrails and a table of contents, the minimap circles of all "
                  "sections without label have the id 'mm-'")
    if mask:
        ctx.known("KF1", "with handrails, the two minimaps of a page with a table of contents "
                  "have elements with the same id")
    ctx.check(not dups, "an id occurs twice")
    ctx.done()


def bibs(ctx):
    """A bibliography item and another node of any kind may have the same label."""
    kind = ctx.oneof("kind", list(D.KINDS))
    l, b, r = ctx.char("l", LAB), ctx.char("b", LAB), ctx.char("r", LAB)
    first = ctx.flag("bib_first")
    early = ctx.flag("ref_first")
    cited = ctx.flag("cited")
    hr = ctx.flag("handrails")
    num = D.Num()
    num.section()
    s, t = D.emit(kind, l, num)
    refs = f"QQ :ref:{r}:: ZZ" + f" KK :cite:{b}:: YY" * cited + "\n\n"
    bib = ":bibliography: ::\n\n"
    body = "Hi.\n\n" + bib * first + D.section("Sone") + "Intro.\n\n" + refs * early + s + bib * (not first) + refs * (not early)
    tail = D.bibtex([(b, "article", dict(author="Au", title="Ti", journal="Jo", year="2001", doi="10.1/x"))])
    tree, cap = with_capture(lambda: to_tree(D.manuscript(body, tail=tail)))
    html = to_html(tree, hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    ctx.check(not dup_ids(root), "an id occurs twice")
    ctx.check(any("uplicate" in m and l in m for m in cap.messages(logging.WARNING)) == (l == b),
              "warning for a duplicate label")
    owner = {l: (False, t), b: (True, "1")}
    if l == b:
        owner = {l: (True, "1") if first else (False, t)}
    if r in owner:
        isbib, text = owner[r]
        dest = _expect_link(ctx, root, "QQ", "ZZ", r, text, f"{kind} and an item")
        ctx.check(("bibitem" in dest.classes) == isbib, f"{kind} and an item: link to the wrong node")
    else:
        _expect_unknown(ctx, root, "QQ", "ZZ", r, cap, f"{kind} and an item")
    if cited:
        got, elems = between(root, "KK", "YY")
        ctx.check(got is not None, "text around the citation is lost")
        links = [e for e in elems if e.tag == "a"]
        if owner[b][0]:
            ctx.check([e.get("href") for e in links] == ["#" + b] and norm(got) == "[1]", "citation of the item")
        else:
            ctx.check(all(e.get("href") in (None, "", "#") for e in links) and b in got and norm(got) != "[1]",
                      "citation of something else than an item")
    ctx.done()


GEN = ("cite-0", "cite-1", "cite-0-0", "kk-doi", "mm-sl")
CITED = ":bibtex:\n@article{kk,\n  author={An Author},\n  title={Ti},\n  year={2000},\n  doi={10.1/y},\n}\n::\n"


HARNESSES = [
    dict(fn=collisions, params={"both_orders": True}, budget={"quick": 120, "thorough": 700},
         bounds="2 labelled nodes of 27 kinds each, labels and the reference over {a,b,c} "
                "(all equality patterns), reference before or after, both renderers",
         witness_rate=0.05),
    dict(fn=places, params={"n": 2, "alpha": "ab-", "talpha": "ab "},
         thorough={"n": 3, "alpha": "ab-_7", "talpha": "abY9.- "},
         bounds="reference in 15 places x 5 target kinds, labels of 2 (thorough 3) symbolic "
                "characters, custom text of 2 symbolic characters", witness_rate=0.05,
         budget={"quick": 100, "thorough": 700}),
    dict(fn=reftext_key, bounds="12 kinds x 3 texts, 2 symbolic characters"),
    dict(fn=many, params={"refs": 2}, thorough={"refs": 3},
         bounds="3 labelled nodes and 2 (thorough 3) references, labels over 4 letters, "
                "references over 5, all equality patterns", witness_rate=0.05,
         budget={"quick": 60, "thorough": 400}),
    dict(fn=ids, bounds="27 kinds of labelled nodes, labels of 2 symbolic characters or spelt like "
         "generated ids, 0-2 citations, with and without a table of contents, both renderers",
         witness_rate=0.03, budget={"quick": 100, "thorough": 300}),
    dict(fn=bibs, witness_rate=0.03, budget={"quick": 90, "thorough": 300},
         bounds="one of 27 kinds of nodes and a bibliography item, before or after, labels and the reference over "
         "{a,b,c}, cited or not, references before or after, both renderers"),
    dict(fn=lots, params={"max": 12}, thorough={"max": 40}, witness_rate=0.05, path_timeout=60,
         budget={"quick": 60, "thorough": 300},
         bounds="1 to 12 (thorough 40) references to one node of 4 kinds, others along every, every second or third"),
]
