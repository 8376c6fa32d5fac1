"""C03: automatic numbers follow document order and are shown alike everywhere."""

import re

from .common import *
from . import docgen as D

ASSUMPTIONS = [
    "sections are nested as the grammar allows: no level is skipped",
    "numbers of nodes inside unnumbered sections or between ':appendix:' and the next section, and the default text of a reference to an "
    "unnumbered node, are not part of the property",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]

MORE = ["lemma", "corollary", "definition", "example", "remark", "proposition"]


class Doc:
    """Builds the source and records what every node must show."""

    def __init__(self, t):
        self.t = t  # a word of the titles
        self.src, self.num, self.nodes = "", D.Num(), []
        self.level = 0  # 0 none, 2 section, 3 subsection, 4 subsubsection
        self.nonum_sec = self.bare = False
        self.i = 0

    def add(self, ev):
        """Append one event; False if the document cannot go on like this."""
        i, num, t = self.i, self.num, self.t
        self.i += 1
        lab = f"l{i}"
        if self.nonum_sec and ev not in ("sec", "nsec", "app"):
            return False
        if self.bare and ev not in ("sec", "nsec"):
            return False  # nodes between ":appendix:" and the first section of it
        self.bare = False
        if ev == "sec":
            n = num.section()
            self.level, self.nonum_sec = 2, False
            self.src += D.section(f"Se{t}{i}", lab) + "Txt.\n\n"
            self.nodes.append((ev, lab, n, f"{n}. Se{t}{i}"))
        elif ev == "nsec":
            self.level, self.nonum_sec = 2, True
            self.src += D.section(f"Ns{t}{i}", lab, nonum=True) + "Txt.\n\n"
            self.nodes.append((ev, lab, None, f"Ns{t}{i}"))
        elif ev == "sub":
            if self.level < 2:
                return False
            n = num.subsection()
            self.level = 3
            self.src += D.section(f"Su{t}{i}", lab, level=3) + "Txt.\n\n"
            self.nodes.append((ev, lab, n, f"{n}. Su{t}{i}"))
        elif ev == "subsub":
            if self.level < 3:
                return False
            n = num.subsubsection()
            self.level = 4
            self.src += D.section(f"Ss{t}{i}", lab, level=4) + "Txt.\n\n"
            self.nodes.append((ev, lab, n, f"{n}. Ss{t}{i}"))
        elif ev == "app":
            if num.app:
                return False
            num.appendix()
            self.bare = True
            self.src += ":appendix:\n\n"
        elif ev in D.THEOREMS or ev == "n_thm" or ev[2:] in D.THEOREMS:
            nonum = ev.startswith("n_")
            kind = "theorem" if ev == "n_thm" else ev[2:] if nonum else ev
            n = None if nonum else num.take("thm")
            self.src += D.theorem(kind, lab, nonum=nonum)
            self.nodes.append(("thm", lab, n, kind.capitalize()))
        elif ev == "thmt":
            n = num.take("thm")
            self.src += D.theorem("theorem", lab, title=f"Tt{t}")
            self.nodes.append(("thm", lab, n, "Theorem", f"Tt{t}"))
        elif ev in ("eq", "n_eq"):
            nonum = ev == "n_eq"
            n = None if nonum else num.take("eq")
            self.src += D.mathblock(lab, nonum=nonum)
            self.nodes.append(("eq", lab, n, "("))
        elif ev == "thmeq":
            n = num.take("thm")
            m = num.take("eq")
            self.src += D.theorem("lemma", lab, body=D.mathblock(lab + "e", before="Math"))
            self.nodes.append(("thm", lab, n, "Lemma"))
            self.nodes.append(("eq", lab + "e", m, "("))
        elif ev == "pfeq":
            m = num.take("eq")
            self.src += (f":proof:\n\n:step:\n\n  St.\n\n  :p:\n\n  :step:\n\n  Math\n$$\n"
                         f"  :label: {lab}\nz\n$$\n\n  ::\n\n  ::\n\n::\n\n::\n\n")
            self.nodes.append(("eq", lab, m, "("))
        elif ev in ("fig", "n_fig"):
            nonum = ev == "n_fig"
            n = None if nonum else num.take("fig")
            self.src += D.figure(lab, nonum=nonum)
            self.nodes.append(("fig", lab, n, "Figure"))
        elif ev in ("tab", "n_tab"):
            nonum = ev == "n_tab"
            n = None if nonum else num.take("tab")
            self.src += D.table(lab, nonum=nonum)
            self.nodes.append(("tab", lab, n, "Table"))
        elif ev == "alg":
            n = num.take("alg")
            self.src += D.algorithm(lab)
            self.nodes.append(("alg", lab, n, "Algorithm"))
        else:
            raise AssertionError(ev)
        return True

    def source(self, toc=True):
        refs = ""
        for nd in self.nodes:
            if nd[2] is not None:
                refs += f"Q{nd[1]}Q :ref:{nd[1]}:: Z{nd[1]}Z. "
        tail = f"{refs or 'End.'}\n\n"
        return D.manuscript("Hi.\n\n" + (":toc:\n\n" if toc else "") + self.src + tail)


def menu_label(e):
    """Text of the menu label of the handrail of element e (its own first menu)."""
    for x in e.iter():
        if "hr-menu-label" in x.classes:
            return norm(x.text())
    return None


def verify(ctx, doc, html, hr, toc=True):
    root = parse_html(ctx, html)
    ctx.check(not dup_ids(root), "an id occurs twice")
    entries = []
    for nd in doc.nodes:
        kind, lab, n, name = nd[:4]
        hit = by_id(root, lab)
        ctx.check(len(hit) == 1, f"{kind} {lab} not found by its label")
        e = hit[0]
        text = norm(content_text(e))
        what = f"{kind} expected {n}"
        if kind in ("sec", "nsec", "sub", "subsub"):
            hs = [x for x in e.iter() if x.tag in ("h2", "h3", "h4")]
            ctx.check(hs and norm(hs[0].text()) == name, f"{what}: heading is wrong")
            entries.append((lab, name))
            if hr and n is not None:
                want = ("Appendix " if doc.appstart(lab) and kind == "sec" else "Section ") + n
                ctx.check(menu_label(e) == want, f"{what}: handrail label is wrong")
            name = "Appendix" if kind == "sec" and doc.appstart(lab) else "Section"
        elif kind == "thm":
            title = nd[4] if len(nd) > 4 else ""
            want = name + (f" {n}" if n else "") + (f": {title}" if title else ".")
            labels = [x for x in e.iter() if "label" in x.classes and x.tag == "span"]
            head = norm(labels[0].text()) if labels else ""
            ctx.check(labels and text.startswith(want), f"{what}: title is wrong")
            ctx.check(head == (name + (f" {n}" if n else "") + (":" if title else ".")),
                      f"{what}: title label is wrong")
            if hr and n:
                ctx.check(menu_label(e) == f"{name} {n}", f"{what}: handrail label is wrong")
        elif kind in ("fig", "tab"):
            want = name + (f" {n}." if n else ".")
            caps = [x for x in e.iter() if x.tag in ("figcaption", "caption")]
            ctx.check(len(caps) == 1 and norm(content_text(caps[0])) ==
                      want + (" Fcap." if kind == "fig" else " Tcap."), f"{what}: caption is wrong")
        elif kind == "eq" and hr:
            nums = [norm(x.text()) for x in e.iter() if "eqn-number" in x.classes]
            ctx.check(nums == ([f"({n})"] if n else []), f"{what}: equation number is wrong")
            ctx.check(menu_label(e) == (f"Equation ({n})" if n else "Equation"),
                      f"{what}: handrail label is wrong")
        if n is not None:
            want = f"({n})" if kind == "eq" else f"{name} {n}"
            got, elems = between(root, f"Q{lab}Q", f"Z{lab}Z")
            ctx.check(got is not None and norm(got) == want, f"{what}: reference text is wrong")
            ctx.check([x.get("href") for x in elems] == ["#" + lab], f"{what}: reference is wrong")
    if toc:
        tocs = [x for x in root.iter() if "contents" in x.classes]
        ctx.check(len(tocs) == 1, "not exactly one table of contents")
        got = [(x.get("href"), norm(x.text())) for x in tocs[0].iter() if x.tag == "a"
               and not any(is_chrome(y) for y in x.ancestors())]
        ctx.check(got == [("#" + a, b) for a, b in entries], "table of contents is wrong")


def _appstart(self, lab):
    return self.app_from is not None and int(lab[1:].rstrip("e")) > self.app_from


Doc.appstart = _appstart
Doc.app_from = None


def run(ctx, events):
    hr = ctx.flag("hr")
    t = ctx.char("t", D.__dict__.get("TITLE", "abZ7"))
    doc = Doc(t)
    for k, opts in enumerate(events):
        ev = ctx.oneof(f"e{k}", opts)
        if ev is None:
            continue
        if ev == "app":
            doc.app_from = doc.i
        if not doc.add(ev):
            ctx.stop()
    html = to_html(to_tree(doc.source()), hr)
    ctx.observe(html)
    verify(ctx, doc, html, hr)
    ctx.done()


SECS = ["sec", "nsec", "sub", "subsub", "app"]
BLOCKS = ["theorem", "n_thm", "eq", "n_eq", "fig", "n_fig", "tab", "n_tab", "alg", "thmeq", "pfeq"]


def mixed(ctx):
    """Any sequence of sections and numbered blocks."""
    run(ctx, [["sec", "theorem", "eq", "fig"]] + [SECS + BLOCKS] * ctx.params["n"])


LONG = [["sec", "theorem", "n_thm"], ["sec", "sub", "eq"], ["fig", "n_fig", "tab"], ["sub", "subsub", "thmeq"],
        ["app", "sec", "lemma"]]


def long(ctx):
    """Longer sequences of few kinds."""
    kinds = ctx.oneof("kinds", LONG)
    run(ctx, [["sec"]] + [kinds] * ctx.params["n"])


def sections(ctx):
    """Any sequence of section levels, unnumbered sections and the appendix."""
    run(ctx, [["sec", "nsec", "app"]] + [SECS] * ctx.params["n"] + [["sec"], ["theorem"]])


def families(ctx):
    """All pairs of theorem-like kinds share one counter; others have their own."""
    kinds = D.THEOREMS + ["thmt", "n_thm", "n_lemma", "n_remark", "eq", "fig", "tab", "alg"]
    run(ctx, [["sec"], kinds, [None, "sec", "sub", "app"], kinds, [None, "eq"]])


def letters(ctx):
    """The n-th section after the appendix, for every n up to the bound, and its contents."""
    n = ctx.int("n", 1, ctx.params["max"])
    hr = ctx.params["hr"]
    doc = Doc("t")
    doc.add("sec")
    doc.add("fig")
    doc.add("tab")
    doc.app_from = doc.i
    doc.add("app")
    count = 0
    while count < n:  # the solver decides the loop bound
        count += 1
        doc.add("sec")
        if count % 9 in (0, 8):
            doc.add("theorem")
            doc.add("sub")
    doc.add("fig")
    doc.add("tab")
    doc.add("theorem")
    html = to_html(to_tree(doc.source()), hr)
    ctx.observe(html)
    verify(ctx, doc, html, hr)
    ctx.done()


def bibitems(ctx):
    """Bibliography items are numbered in order whatever else is numbered."""
    hr = ctx.flag("hr")
    n = ctx.oneof("n", list(range(1, ctx.params["items"] + 1)))
    doc = Doc(ctx.char("t", "abZ"))
    for k in range(2):
        ev = ctx.oneof(f"e{k}", ["sec", "theorem", "eq", "fig", "tab", "app"])
        if ev == "app":
            doc.app_from = doc.i
        if not doc.add(ev):
            ctx.stop()
    cites = " ".join(f"QQ{i} :cite:k{i}:: ZZ{i}" for i in range(n))
    body = "Hi.\n\n" + doc.src + f"{cites}\n\n:bibliography: ::\n\n"
    src = D.manuscript(body, tail=D.bibtex([(f"k{i}", "article", dict(title=f"Tb{i}", year="1900"))
                                            for i in range(n)]))
    html = to_html(to_tree(src), hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    items = [e for e in root.iter() if "bibitem" in e.classes]
    ctx.check(len(items) == n, "items lost")
    for i, e in enumerate(items):
        ctx.check(norm(content_text(e)).startswith(f"{i + 1}. \"Tb{i}\""), "item number is wrong")
        got, _ = between(root, f"QQ{i}", f"ZZ{i}")
        ctx.check(got is not None and norm(got) == f"[{i + 1}]", "citation shows another number")
    ctx.done()


def _thm(k):
    return lambda w, m: f":{k}:\n{m}\n{w}\n\n::\n\n"


# kind: (source of one with a word and meta lines, or meta in braces for inlines; number as
# shown by itself without handrails and with, and by a reference; what comes around all)
UNNUM = {k: (_thm(k), "{n}", "{n} {n}", k.capitalize() + " {n}") for k in D.THEOREMS}
UNNUM.update({
    "section": (lambda w, m: f"## {w}\n{m}\nText.\n\n", "{n}", "{n} {n}", "Section {n}"),
    "subsection": (lambda w, m: f"### {w}\n{m}\nText.\n\n", "1.{n}", "1.{n} 1.{n}", "Section 1.{n}"),
    "subsubsection": (lambda w, m: f"#### {w}\n{m}\nText.\n\n", "1.1.{n}", "1.1.{n} 1.1.{n}",
                      "Section 1.1.{n}"),
    "step": (lambda w, m: f":step:\n{m}\n  {w}\n\n::\n\n", "", "{n} {n}", "Step ⟨{n}⟩"),
    "substep": (lambda w, m: f":step:\n{m}\n  {w}\n\n::\n\n", "", "1.{n} 1.{n}", "Step ⟨1.{n}⟩"),
    "equation": (lambda w, m: f"Foo\n$$\n{m}x\n$$\n\n", "", "{n} {n}", "({n})"),
    "mathblock": (lambda w, m: f":mathblock:\n{m}\nx\n\n::\n\n", "", "{n} {n}", "({n})"),
    "figure": (lambda w, m: f":figure:\n  :path: x.png\n{m}\n  :caption: {w}\n\n::\n\n", "{n}", "{n}",
               "Figure {n}"),
    "table": (lambda w, m: f":table:\n{m}\n:tbody:\n\n:tr: a : b ::\n\n::\n\n:caption: {w}\n\n::\n\n",
              "{n}", "{n}", "Table {n}"),
    "algorithm": (lambda w, m: f":algorithm:\n{m}\nfoo\n\n::\n\n", "", "", "Algorithm {n}"),
})
AROUND = {
    "subsection": ("## Foo\n\nText.\n\n{0}", "1", "1 1"),
    "subsubsection": ("## Foo\n\n### Foo\n\nText.\n\n{0}", "1 1.1", "1 1 1.1 1.1"),
    "step": (":proof:\n\n{0}::\n\n", "", ""),
    "substep": (":proof:\n\n:step:\n\n  Foo\n\n{0}::\n\n::\n\n", "", "1"),
}


def unnumbered(ctx):
    """Several of a kind, any of them not numbered: those show no number and take none."""
    hr = ctx.flag("hr")
    kind = ctx.oneof("kind", list(UNNUM))
    make, plain, rails, ref = UNNUM[kind]
    around, first, hfirst = AROUND.get(kind, ("{0}", "", ""))
    shown, body, refs, n = [hfirst if hr else first], "", "", 0
    for i in range(ctx.params["n"]):
        w = "wo" + ctx.char(f"w{i}", "abZ") + "rd"
        nonum = ctx.flag(f"nonum{i}")
        m = f"  :label: {'la' + 'abcde'[i]}\n" + ("  :nonum:\n" if nonum else "")
        body += make(w, m)
        if not nonum:
            n += 1
            shown.append((rails if hr else plain).replace("{n}", str(n)))
            refs += f":ref:{'la' + 'abcde'[i]}:: "
    if kind == "substep" and hr:
        shown.append("1")  # the info zone of the outer step
    want = " ".join(shown).split()
    k = 0
    for _ in range(n):
        k += 1
        want.append(re.search(r"[\d.]*\{n\}", ref).group().replace("{n}", str(k)))
    src = D.manuscript(around.replace("{0}", body) + (f"Qq {refs}end.\n\n" if n else ""))
    html = to_html(to_tree(src), hr)
    ctx.observe(html)
    root = parse_html(ctx, html)
    text = norm("".join(x.text() + " " for x in root.children if not isinstance(x, str)))
    ctx.check("None" not in text, f"{kind}: 'None' is shown for a number")
    got = [x.strip(".") for x in re.findall(r"[\d.]*\d", text)]
    ctx.check(sorted(got) == sorted(want) if kind in ("step", "substep") else got == want,
              f"{kind}: numbers are {got}, expected {want}")
    ctx.done()


HARNESSES = [
    dict(fn=mixed, params={"n": 2}, thorough={"n": 3}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 600},
         bounds="all sequences of 3 (thorough 4) out of 16 kinds of events after a first one"),
    dict(fn=sections, params={"n": 4}, thorough={"n": 6}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 400},
         bounds="all sequences of 5 (thorough 7) section levels, unnumbered sections, appendix"),
    dict(fn=families, witness_rate=0.05, budget={"quick": 60, "thorough": 200},
         bounds="all pairs of 15 kinds with every separator between and a third block after"),
    dict(fn=letters, params={"max": 28, "hr": False}, thorough={"max": 60, "hr": True},
         path_timeout=60, budget={"quick": 60, "thorough": 600},
         bounds="1 to 28 (thorough 60) sections after the appendix"),
    dict(fn=unnumbered, params={"n": 3}, thorough={"n": 5}, witness_rate=0.1,
         bounds="3 (thorough 5) nodes of each of 17 kinds, any subset not numbered"),
    dict(fn=bibitems, params={"items": 3}, thorough={"items": 12},
         bounds="1 to 3 (thorough 12) items among other numbered nodes"),
    dict(fn=long, params={"n": 6}, thorough={"n": 8}, witness_rate=0.01, budget={"quick": 90, "thorough": 900},
         bounds="all sequences of 7 (thorough 9) events of 3 kinds, 5 choices of these"),
]
