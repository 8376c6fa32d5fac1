"""C02: citations and bibliography back-links agree."""

from .common import *
from . import docgen as D

ASSUMPTIONS = [
    "keys are words over letters, digits, '-' and '_'; field values over letters, digits, "
    "space, '.', ',' and '-'",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]

# every place text may be written; {r} is the marked citation
PLACES = [
    "{r}\n\n",
    ":theorem:\n\n{r}\n\n::\n\n",
    ":itemize:\n\n  :item: {r}\n\n::\n\n",
    ":proof:\n\n:step: {r} ::\n\n::\n\n",
    ":proof:\n\n:step: Foo.\n\n  :p:\n\n  :step: {r} ::\n\n  ::\n\n::\n\n::\n\n",
    "Foo :note: {r}:: bar.\n\n",
    "Foo :span: {{:strong:}} {r}:: bar.\n\n",
    "Foo *{r}* bar.\n\n",
    "Foo :claim: {r} :: bar.\n\n",
    ":figure:\n  :path: foo.png\n\n  :caption: {r}.\n\n::\n\n",
    ":table:\n\n:tbody:\n\n:tr:\n\n:td: {r} ::\n\n::\n\n::\n\n::\n\n",
    "## Other\n\n{r}\n\n",
    "Foo\n$$\nx\n$$\n{r}\n\n",
    ":abstract:\n\n{r}\n\n::\n\n",
    ":sketch:\n\n{r}\n\n::\n\n",
]
MARKS = [("QA", "ZA"), ("QB", "ZB"), ("QC", "ZC"), ("QD", "ZD")]
FIELDS = ["author", "title", "journal", "publisher", "year", "doi"]


def flat(root):
    """Document-order list of elements."""
    return [v for k, v in events(root) if k == "open"]


def find_item(ctx, root, key):
    hit = by_id(root, key)
    ctx.check(len(hit) == 1, "bibliography item has no element of its own")
    ctx.check("bibitem" in hit[0].classes, "key leads to something else than its item")
    return hit[0]


def check_cite(ctx, root, marks, keys, numbers, cap, what):
    """keys[i] cited at marks; numbers[i] is the item's number or None if unknown."""
    text, elems = between(root, *marks)
    ctx.check(text is not None, f"{what}: text around the citation lost")
    links = [e for e in elems if e.tag == "a"]
    li = 0
    rest = text
    for key, num in zip(keys, numbers):
        if num is None:
            ctx.check(key in rest, f"{what}: unknown key not shown")
            ctx.check("unknown" in rest or "not a" in rest, f"{what}: unknown key not shown as an error")
            # an unknown key may be rendered as a dead link, but never leads anywhere
            if li < len(links) and key in links[li].text():
                ctx.check(links[li].get("href") in ("#", "", None),
                          f"{what}: unknown key leads somewhere")
                li += 1
            rest = rest.split(key, 1)[1]
            ctx.check(any(key in m for m in cap.messages(logging.WARNING)),
                      f"{what}: no warning for an unknown key")
        else:
            ctx.check(li < len(links), f"{what}: key without a link")
            a = links[li]
            li += 1
            ctx.check(a.get("href") == "#" + key, f"{what}: link to the wrong item")
            ctx.check(norm(a.text()) == str(num), f"{what}: shows the wrong number")
            ctx.check(str(num) in rest, f"{what}: numbers out of order")
            rest = rest.split(str(num), 1)[1]
    ctx.check(li == len(links), f"{what}: extra links")
    if all(n is not None for n in numbers):
        ctx.check(norm(text) == "[" + ", ".join(str(n) for n in numbers) + "]",
                  f"{what}: citation text is wrong")


def check_backlinks(ctx, root, item, spots, what):
    """spots: list of marker pairs of the citing occurrences, in document order."""
    backs = [e for e in item.iter() if e.tag == "a" and "backlink" in e.classes]
    ctx.check(len(backs) == len(spots), f"{what}: wrong number of back-links")
    order = flat(root)
    for i, (b, marks) in enumerate(zip(backs, spots), 1):
        ctx.check("".join(c for c in b.text() if c.isdigit()) == str(i),
                  f"{what}: back-links are not numbered 1, 2, ...")
        href = b.get("href")
        ctx.check(href is not None and href.startswith("#"), f"{what}: back-link without target")
        dest = by_id(root, href[1:])
        ctx.check(len(dest) == 1, f"{what}: back-link leads to {len(dest)} places")
        _, inside = between(root, *marks)
        ctx.check(any(e is dest[0] for e in inside),
                  f"{what}: back-link leads to another place than the citation")


def cites(ctx):
    """Items with symbolic keys, several citations with symbolic keys."""
    nitems, ncites = ctx.params["items"], ctx.params["cites"]
    items = [ctx.char(f"i{j}", "abc") for j in range(nitems)]
    hr = ctx.flag("hr")
    shape = ctx.oneof("shape", ctx.params["shapes"])  # number of keys of each citation
    keys = [[ctx.char(f"k{c}_{j}", "abcd") for j in range(shape[c])] for c in range(ncites)]
    body = "Intro.\n\n"
    for c in range(ncites):
        body += f"{MARKS[c][0]} :cite:{','.join(keys[c])}:: {MARKS[c][1]}.\n\n"
    src = D.manuscript(
        body + ":bibliography: ::\n\n",
        tail=D.bibtex([(k, "article", dict(author=f"Au{j}", title=f"Ti{j}", journal="Jo",
                                           year="2001", doi=f"10.1/x{j}"))
                       for j, k in enumerate(items)]))
    tree, cap = with_capture(lambda: to_tree(src))
    html = to_html(tree, hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    ctx.check(not dup_ids(root), "an id occurs twice")
    ctx.check(not [e for e in root.iter() if e.tag == "a" and e.get("href") is None
                   and "reference" in e.classes], "a reference without href")
    owner = [next(i for i in range(nitems) if items[i] == items[j]) for j in range(nitems)]
    spots = {}
    for c in range(ncites):
        nums = []
        for k in keys[c]:
            hit = next((j for j in range(nitems) if items[j] == k), None)
            nums.append(None if hit is None else hit + 1)
            if hit is not None:
                spots.setdefault(hit, []).append(MARKS[c])
        check_cite(ctx, root, MARKS[c], keys[c], nums, cap, f"citation {c}")
    elems = [e for e in root.iter() if "bibitem" in e.classes]
    ctx.check(len(elems) == nitems, "wrong number of bibliography items")
    for j, e in enumerate(elems):
        text = norm(content_text(e))
        ctx.check(f"{j + 1}. Au{j}" in text and f"Ti{j}" in text,
                  "items are not printed in order with their numbers")
        if owner[j] == j:
            ctx.check(e.get("id") == items[j], "item does not carry its key")
            check_backlinks(ctx, root, e, spots.get(j, []), f"item {j}")
        else:
            ctx.check(any(items[j] in m for m in cap.messages(logging.WARNING)),
                      "no warning for a repeated key")
            check_backlinks(ctx, root, e, [], f"item {j} with a repeated key")
    ctx.done()


def repeated(ctx):
    """Several items with one key."""
    cites(ctx)


def places(ctx):
    """Two citations in every pair of places text may stand."""
    n = len(PLACES)
    p1, p2 = ctx.choose("p1", n), ctx.oneof("p2", ctx.params["second"] or list(range(n)))
    hr = ctx.flag("hr")
    known = ctx.flag("known")
    L = ctx.params["len"]
    k1 = ctx.char("ka", "abx") + ctx.word("k", L - 1, "ab-7")
    k2 = ctx.char("ja", "abx") + ctx.word("j", L - 1, "ab-7")
    ctx.assume(k1 != k2)
    second = k2 if known else "zz9"
    body = "Intro.\n\n"
    body += PLACES[p1].format(r=f"QA :cite:{k1}:: ZA")
    body += PLACES[p2].format(r=f"QB :cite:{second},{k1}:: ZB")
    src = D.manuscript(
        body + ":bibliography: ::\n\n",
        tail=D.bibtex([(k2, "book", dict(author="Auz", title="Tiz", publisher="Pu", year="1999")),
                       (k1, "article", dict(author="Aux", title="Tix"))]))
    tree, cap = with_capture(lambda: to_tree(src))
    html = to_html(tree, hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    ctx.check(not dup_ids(root), "an id occurs twice")
    check_cite(ctx, root, MARKS[0], [k1], [2], cap, "first citation")
    check_cite(ctx, root, MARKS[1], [second, k1], [1 if known else None, 2], cap, "second citation")
    check_backlinks(ctx, root, find_item(ctx, root, k1), [MARKS[0], MARKS[1]], "item")
    check_backlinks(ctx, root, find_item(ctx, root, k2), [MARKS[1]] if known else [], "other item")
    ctx.done()


def fields(ctx):
    """Every subset of the fields, with symbolic values."""
    kind = ctx.oneof("kind", ["article", "book"])
    hr = ctx.flag("hr")
    cited = ctx.flag("cited")
    A = ctx.params["alpha"]
    have = [f for f in FIELDS if ctx.flag("has_" + f)]
    if len(have) < 2:
        ctx.stop()  # the grammar wants at least two fields
    which = ctx.oneof("which", have)
    n, vals = ctx.params["n"], {}
    for f in have:
        if f == "year":
            vals[f] = "1" + (ctx.word("y", 3, "0123456789") if f == which else "998")
        elif f == "doi":
            vals[f] = "10.1/" + (ctx.word("d", 2, "ab7.") if f == which else "x9")
        else:
            v = ctx.word("v", n, A) if f == which else ", "[:n]
            vals[f] = "W" + v + {"author": "q", "title": "w"}.get(f, "p")
    src = D.manuscript(
        "Intro" + (" QA :cite:kk:: ZA" if cited else "") + ".\n\n:bibliography: ::\n\n",
        tail=D.bibtex([("aa", "article", dict(title="First", year="1900")), ("kk", kind, vals)]))
    html = to_html(to_tree(src), hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    item = find_item(ctx, root, "kk")
    parts = ["2"]
    for f in ["author", "title", "journal", "publisher", "year"]:
        if f not in vals or (f == "journal" and kind != "article") or (f == "publisher" and kind != "book"):
            continue
        parts.append(f'"{vals[f]}"' if f == "title" else vals[f])
    want = norm(". ".join(parts) + ".")
    text = norm(content_text(item))
    ctx.check(text.startswith(want), f"item does not read as its fields: {want!r}")
    rest = norm(text[len(want):].replace("[link]", "").replace("↖1", "").replace("[]", ""))
    ctx.check(rest == "", "something else is printed with the item")
    links = [e for e in item.iter() if e.tag == "a" and (e.get("href") or "").startswith("http")]
    if "doi" in vals:
        ctx.check(len(links) == 1, "not exactly one DOI link")
        ctx.check(links[0].get("href") == "https://doi.org/" + vals["doi"], "DOI link is wrong")
    else:
        ctx.check(not links, "DOI link without a DOI")
    if cited:
        check_cite(ctx, root, MARKS[0], ["kk"], [2], Capture(), "citation")
        check_backlinks(ctx, root, item, [MARKS[0]], "item")
    ctx.done()


def foreign(ctx):
    """A citation whose key is the label of something that is not a bibliography item."""
    kinds = sorted(D.KINDS)
    kind = ctx.oneof("kind", kinds)
    hr = ctx.flag("hr")
    lab, key = ctx.word("l", 1, "ab"), ctx.word("k", 1, "ab")
    other = ctx.flag("other")
    num = D.Num()
    num.section()
    s, _ = D.emit(kind, lab, num)
    keys = [key] + (["bb1"] if other else [])
    body = D.section("Sone") + "Intro.\n\n" + s + f"QA :cite:{','.join(keys)}:: ZA and QB :cite:bb1:: ZB.\n\n"
    src = D.manuscript(body + ":bibliography: ::\n\n",
                       tail=D.bibtex([("bb1", "article", dict(title="Tx", year="1900"))]))
    tree, cap = with_capture(lambda: to_tree(src))
    html = to_html(tree, hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    ctx.check(not dup_ids(root), "an id occurs twice")
    check_cite(ctx, root, MARKS[0], keys, [None] + ([1] if other else []), cap, f"citing a {kind}")
    check_cite(ctx, root, MARKS[1], ["bb1"], [1], cap, "next citation")
    check_backlinks(ctx, root, find_item(ctx, root, "bb1"),
                    ([MARKS[0]] if other else []) + [MARKS[1]], "item")
    ctx.done()


def lots(ctx):
    """Many citations of the same items, more than nine of each."""
    n = ctx.int("n", 1, ctx.params["max"])
    step = ctx.oneof("step", [1, 2, 3])  # every step-th citation is of the other item too
    hr = ctx.flag("hr")
    k = "k" + ctx.char("k", "ab-")
    body, spots, others = "Intro.\n\n", [], []
    count = 0
    while count < n:  # the solver decides the number of citations
        marks = (f"Q{count}Q", f"Z{count}Z")
        both = count % step == 0
        body += f"{marks[0]} :cite:{'oo,' if both else ''}{k}:: {marks[1]}.\n\n"
        spots.append(marks)
        if both:
            others.append(marks)
        count += 1
    items = [("oo", "article", dict(author="Ax", title="Tx", year="1900", volume="4", number="17")),
             (k, "book", dict(author="Ay", title="Ty", year="1901", number="3"))]
    items += [(f"m{i}", "article", dict(title=f"T{i}", year="1902")) for i in range(ctx.params["more"])]
    if ctx.flag("last"):
        items = items[2:] + items[:2]
    number = {items[i][0]: i + 1 for i in range(len(items))}
    src = D.manuscript(body + ":bibliography: ::\n\n", tail=D.bibtex(items))
    tree, cap = with_capture(lambda: to_tree(src))
    html = to_html(tree, hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    ctx.check(not dup_ids(root), "an id occurs twice")
    for i, marks in enumerate(spots):
        keys = (["oo"] if marks in others else []) + [k]
        check_cite(ctx, root, marks, keys, [number[x] for x in keys], cap, f"citation {i}")
    check_backlinks(ctx, root, find_item(ctx, root, k), spots, "item")
    check_backlinks(ctx, root, find_item(ctx, root, "oo"), others, "other item")
    ctx.done()


HARNESSES = [
    dict(fn=cites, params={"items": 2, "cites": 2, "shapes": [(1, 1), (2, 1), (1, 2)]},
         thorough={"items": 3, "cites": 3, "shapes": [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 3)]},
         budget={"quick": 60, "thorough": 600}, witness_rate=0.05,
         bounds="2 (thorough 3) items and citations of 1 to 2 (3) keys, all equality patterns "
                "of item and citation keys, both renderers"),
    dict(fn=repeated, params={"items": 3, "cites": 1, "shapes": [(1,), (2,)]},
         thorough={"items": 4, "cites": 1, "shapes": [(1,), (2,), (3,)]}, budget={"quick": 60, "thorough": 300}, witness_rate=0.05,
         bounds="3 (thorough 4) items and one citation of 1 or 2 (3) keys, all equality patterns"),
    dict(fn=places, params={"len": 2, "second": [0, 4, 5, 9]},
         thorough={"len": 3, "second": None}, budget={"quick": 60, "thorough": 400},
         witness_rate=0.05,
         bounds="15 x 4 (thorough 15) places of two citations, keys of 2 (thorough 3) symbolic characters"),
    dict(fn=fields, params={"n": 1, "alpha": "ab .-"}, thorough={"n": 2, "alpha": "abZ7 .-,"},
         budget={"quick": 60, "thorough": 500}, witness_rate=0.05,
         bounds="all subsets of 6 fields, article or book, cited or not, symbolic values"),
    dict(fn=foreign, budget={"quick": 60, "thorough": 200},
         bounds="the key of a citation equals or differs from the label of a node of 27 kinds"),
    dict(fn=lots, params={"max": 13, "more": 9}, thorough={"max": 40, "more": 40}, path_timeout=60,
         budget={"quick": 60, "thorough": 300}, witness_rate=0.05,
         bounds="1 to 13 (thorough 40) citations of one item, another item cited along every "
                "first, second or third time, 11 (thorough 42) items"),
]
