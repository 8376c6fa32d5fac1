"""Manuscript fragments and an independent model of RSM's numbering.

Nothing here is derived from the code under test: the expected numbers and texts are
computed from the documented rules only.
"""


def letters(n):
    """1 -> A, 26 -> Z, 27 -> AA."""
    out = ""
    while n > 0:
        n, r = divmod(n - 1, 26)
        out = chr(65 + r) + out
    return out


class Num:
    """The documented numbering rules."""

    def __init__(self):
        self.sec = self.sub = self.subsub = 0
        self.cnt = {"tab": 0, "alg": 0, "thm": 0, "eq": 0, "fig": 0}
        self.app = False
        self.cur = ""  # printed number of the current section
        self.cursub = ""

    def appendix(self):
        self.app = True
        self.sec = 0

    def section(self):
        self.sec += 1
        self.cur = letters(self.sec) if self.app else str(self.sec)
        self.sub = self.subsub = 0
        self.cursub = ""
        for k in ("thm", "eq", "fig"):
            self.cnt[k] = 0
        return self.cur

    def subsection(self):
        self.sub += 1
        self.subsub = 0
        self.cursub = f"{self.cur}.{self.sub}"
        return self.cursub

    def subsubsection(self):
        self.subsub += 1
        return f"{self.cursub}.{self.subsub}"

    def take(self, family):
        self.cnt[family] += 1
        n = str(self.cnt[family])
        if family in ("tab", "alg") or not self.cur:
            return n
        return f"{self.cur}.{n}"


THEOREMS = [
    "theorem",
    "lemma",
    "corollary",
    "definition",
    "example",
    "remark",
    "proposition",
]


def _meta(label, nonum=False, **kw):
    out = ""
    if label:
        out += f"  :label: {label}\n"
    for k, v in kw.items():
        out += f"  :{k}: {v}\n"
    if nonum:
        out += "  :nonum:\n"
    return out


def theorem(kind="theorem", label="", body="Body.", nonum=False, title=""):
    m = _meta(label, nonum)
    if title:
        m += f"  :title: {title}\n"
    return f":{kind}:\n{m}\n{body}\n\n::\n\n"


def section(title, label="", nonum=False, level=2):
    return f"{'#' * level} {title}\n{_meta(label, nonum)}\n"


def figure(label="", caption="Fcap.", nonum=False, path="foo.png"):
    return (
        f":figure:\n{_meta(label)}  :path: {path}\n{_meta('', nonum)}\n"
        f"  :caption: {caption}\n\n::\n\n"
    )


def table(label="", caption="Tcap.", nonum=False):
    return (
        f":table:\n{_meta(label, nonum)}\n:tbody:\n\n:tr: c1 : c2 ::\n\n::\n\n"
        f":caption: {caption}\n\n::\n\n"
    )


def algorithm(label="", nonum=False):
    return f":algorithm:\n{_meta(label, nonum)}\nfoo\n\n::\n\n"


def codeblock(label="", text="k = v"):
    return f":codeblock:\n{_meta(label)}\n{text}\n\n::\n\n"


def mathblock(label="", text="z", nonum=False, before="Math", after=""):
    return f"{before}\n$$\n{_meta(label, nonum)}{text}\n$$\n{after}\n"


def proof(label="", steplabel="", body=None):
    if body is None:
        body = f":step:\n{_meta(steplabel)}\n  St.\n\n::\n\n"
    return f":proof:\n{_meta(label)}\n{body}::\n\n"


# kind -> (source with label, counter family or None, default reference text)
KINDS = {k: (lambda L, k=k: theorem(k, L), "thm", k.capitalize() + " {n}") for k in THEOREMS}
KINDS.update(
    {
        "figure": (figure, "fig", "Figure {n}"),
        "table": (table, "tab", "Table {n}"),
        "algorithm": (algorithm, "alg", "Algorithm {n}"),
        "mathblock": (mathblock, "eq", "({n})"),
        "codeblock": (codeblock, None, "Code Listing"),
        "paragraph": (lambda L: f":paragraph: {{:label: {L}}} Ptext.\n\n", None, "Paragraph"),
        "item": (lambda L: f":itemize:\n\n  :item: {{:label: {L}}} It.\n\n::\n\n", None, "Item"),
        "itemize": (lambda L: f":itemize:\n  :label: {L}\n\n  :item: It.\n\n::\n\n", None, "Itemize"),
        "enumerate": (lambda L: f":enumerate:\n  :label: {L}\n\n  :item: It.\n\n::\n\n", None, "Enumerate"),
        "span": (lambda L: f"Pre :span: {{:label: {L}, :strong:}} bold:: post.\n\n", None, "Span"),
        "math": (lambda L: f"Pre :math: {{:label: {L}}} x :: post.\n\n", None, "Math"),
        "code": (lambda L: f"Pre :code: {{:label: {L}}} y :: post.\n\n", None, "Code"),
        "note": (lambda L: f"Pre :note: {{:label: {L}}} a note:: post.\n\n", None, "Note"),
        "claim": (lambda L: f"Pre :claim: {{:label: {L}}} x :: post.\n\n", None, "Construct"),
        "draft": (lambda L: f"Pre :draft: {{:label: {L}}} foo :: post.\n\n", None, "Draft"),
        "proof": (lambda L: proof(L), None, "Proof"),
        "step": (lambda L: proof("", L), None, "Step ⟨1⟩"),
        "sketch": (lambda L: f":sketch:\n  :label: {L}\n\nSk.\n\n::\n\n", None, "Sketch"),
        "section": (lambda L: section("Ttl", L) + "Sbody.\n\n", "section", "Section {n}"),
        "subsection": (lambda L: section("Ttl", L, level=3) + "Sbody.\n\n", "subsection", "Section {n}"),
    }
)


def emit(kind, label, num):
    """(source, default reference text); advances the numbering model."""
    src, fam, text = KINDS[kind]
    if fam == "section":
        n = num.section()
    elif fam == "subsection":
        n = num.subsection()
    elif fam:
        n = num.take(fam)
    else:
        n = ""
    return src(label), text.replace("{n}", n)


def manuscript(body, title="Mtitle", tail=""):
    return f":rsm:\n  :title: {title}\n\n{body}::\n{tail}"


def bibtex(entries):
    """entries: list of (key, kind, dict of fields)."""
    out = ":bibtex:\n\n"
    for key, kind, fields in entries:
        out += f"@{kind}{{{key},\n"
        for k, v in fields.items():
            out += f"  {k}={{{v}}},\n"
        out += "}\n\n"
    return out + "::\n"
