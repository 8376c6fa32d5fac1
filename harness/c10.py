"""C10: proof steps are grouped, numbered, and linked correctly."""

from . import frag as F
from .common import *

ASSUMPTIONS = [
    "a step holds at most one explicit subproof (what a second one means is not documented)",
    "distance 0 is not used",
    "the numbers of the substeps of a step that is not numbered are not part of the property",
    "the compiled tree-sitter grammar is executed on representatives of the character classes",
]


class St:
    def __init__(self, i, parent):
        self.i, self.parent, self.kids = i, parent, []
        self.style, self.label, self.group = "implicit", "", None
        self.nonum = False

    def full(self):
        """Its number, or None if it has none or is within a step that has none."""
        if self.nonum or self.parent and self.parent.full() is None:
            return None
        n = str(1 + sum(not s.nonum for s in self.group[: self.group.index(self)]))
        return n if self.parent is None else self.parent.full() + "." + n


def shape(ctx, n, depth, proofs):
    """Any forest of n steps, spread over the proofs."""
    roots, path, flat = [[]], [], []
    for i in range(n):
        opts = list(range(min(len(path), depth - 1) + 1))
        if proofs and i and len(roots) < proofs:
            opts.append("proof")
        d = ctx.oneof(f"d{i}", opts)
        if d == "proof":
            roots.append([])
            d = 0
        path = path[:d]
        s = St(i, path[-1] if path else None)
        s.group = path[-1].kids if path else roots[-1]
        s.group.append(s)
        path.append(s)
        flat.append(s)
    return roots, flat


STYLES = ["implicit", "explicit", "tail", "late"]


def write(s, w, extra):
    """Source and expectation of one step; extra(s, place) adds a reference."""
    a = w()
    head, exp = extra(s, "statement")
    meta = f"  :label: {s.label}\n" if s.label else ""
    meta += "  :nonum:\n" if s.nonum else ""
    meta = f"\n{meta}\n" if meta else " "
    text = ["paragraph", a + " ", *head[1], " end."] if head else ["paragraph", a]
    src = f":step:{meta}{a} {head[0]} end.\n\n" if head else f":step:{meta}{a}\n\n"
    if s.style == "bare" and not head:
        src, stm = f":step:{meta if meta != ' ' else chr(10) * 2}", ["statement"] if s.kids else None
    else:
        stm = ["statement", text]
    out = ["step", stm] if stm else ["step"]
    if s.kids or s.style in ("empty", "text"):
        parts = [write(k, w, extra) for k in s.kids]
        b = w()
        mid, mexp = extra(s, "tail")
        tail = f"{b} {mid[0]} end.\n\n" if mid else f"{b}\n\n"
        tailexp = ["paragraph", b + " ", *mid[1], " end."] if mid else ["paragraph", b]
        sub = [e for _, e in parts]
        body = "".join(t for t, _ in parts)
        if s.style in ("implicit", "bare") and not mid:
            src += body
        elif s.style == "explicit" and not mid:
            src += ":p:\n\n" + body + "::\n\n"
        elif s.style == "empty" and not s.kids and not mid:
            src += ":p:\n\n::\n\n"
        elif s.style == "text":
            src += ":p:\n\n" + tail + body + "::\n\n"
            sub = [tailexp] + sub
        elif s.style == "late":  # something after the explicit subproof
            src += ":p:\n\n" + parts[0][0] + "::\n\n" + tail + "".join(t for t, _ in parts[1:])
            sub = [parts[0][1], tailexp] + [e for _, e in parts[1:]]
        else:  # text after the first sub-step
            src += parts[0][0] + tail + "".join(t for t, _ in parts[1:])
            sub = [parts[0][1], tailexp] + [e for _, e in parts[1:]]
        out.append(["subproof", *sub])
    return src + "::\n\n", out


def document(roots, w, extra):
    body = ""
    exp = []
    for r in roots:
        parts = [write(s, w, extra) for s in r]
        body += ":proof:\n\n" + "".join(t for t, _ in parts) + "::\n\n"
        exp.append(["proof"] + [e for _, e in parts])
    return F.manuscript(body, bib=False), F.BASE_EXP + exp


def verify(ctx, html, hr, flat, exp):
    root = parse_html(ctx, html)
    F.same_skeleton(ctx, root, exp, "steps", bib=False)
    els = [e for e in root.iter() if "step" in e.classes and not is_chrome(e)]
    ctx.check(len(els) == len(flat), "steps are lost or doubled")
    for e, s in zip(els, flat):
        own = next(x for x in [e, *e.iter()] if "step" in x.classes)
        ids = [x.get("id") for x in e.iter() if x.get("id")]
        if s.label:
            ctx.check(e.get("id") == s.label, "the label is not on its step")
        else:
            ctx.check(not e.get("id"), "an id without a label")
        if hr:
            nums = [x for x in e.iter() if "step-number" in x.classes and nearest(x) is own]
            labs = [x for x in e.iter() if "hr-menu-label" in x.classes and nearest(x) is own]
            if s.nonum:
                ctx.check(not nums, "a step that is not numbered shows a number")
                ctx.check(bool(labs) and norm(labs[0].text()) == "Step",
                          "the menu of a step that is not numbered names a number")
                continue
            if s.full() is None:
                continue
            ctx.check(len(nums) == 1 and norm(nums[0].text()) == f"⟨{s.full()}⟩",
                      "a step shows a wrong number")
            ctx.check(bool(labs) and norm(labs[0].text()) == f"Step ⟨{s.full()}⟩",
                      "the menu of a step names a wrong number")
    return root


def nearest(x):
    return next((a for a in x.ancestors() if "step" in a.classes), None)


def tree(ctx):
    """Any tree of steps, any way of writing the subproofs."""
    hr = ctx.flag("hr")
    roots, flat = shape(ctx, ctx.params["n"], ctx.params["depth"], ctx.params["proofs"])
    for s in flat:
        if s.kids:
            s.style = ctx.oneof(f"y{s.i}", ctx.params["styles"])
    leaf = ctx.oneof("leaf", ["", "empty", "text", "bare"])
    if leaf:
        last = next(s for s in flat if not s.kids)
        last.style = leaf
    every = ctx.oneof("lab", ["all", "odd"])
    for s in flat:
        s.label = f"l{s.i}" if every == "all" or s.i % 2 else ""
    w = F.Words(ctx.char("c", LETTERS))
    src, exp = document(roots, w, lambda s, p: (None, None))
    html = to_html(to_tree(src), hr)
    ctx.observe(html)
    verify(ctx, html, hr, flat, exp)
    ctx.done()


def long(ctx):
    """Larger trees of steps, with a reference from the last step of any group to any before it."""
    hr = ctx.flag("hr")
    roots, flat = shape(ctx, ctx.params["n"], ctx.params["depth"], 0)
    for s in flat:
        s.label = f"l{s.i}"
        s.style = "explicit" if s.i % 2 else "implicit"
    at = flat[-1]
    d = at.group.index(at)
    d = ctx.oneof("d", list(range(1, d + 1))) if d else 0
    inner = ["a", f"Step ⟨{at.group[-1 - d].full()}⟩"]
    src, exp = document(roots, F.Words("a"), lambda s, p: (
        ((f":previous:{d}::", [inner]), None) if s is at and p == "statement" and d else (None, None)))
    html = to_html(to_tree(src), hr)
    ctx.observe(html)
    root = verify(ctx, html, hr, flat, exp)
    links = [x for x in root.iter() if x.tag == "a" and "reference" in x.classes]
    ctx.check([x.get("href") for x in links] == ["#" + at.group[-1 - d].label] * bool(d), "the link leads to another step")
    ctx.done()


def unnumbered(ctx):
    """Any tree of steps any of which are not numbered; a reference to any of the others."""
    roots, flat = shape(ctx, ctx.params["n"], ctx.params["depth"], 2)
    for s in flat:
        s.label = f"l{s.i}"
        s.nonum = ctx.flag(f"nn{s.i}")
    at = ctx.oneof("at", flat)
    targets = [s for s in flat if s.full()]
    if not targets:
        ctx.stop()
    t = ctx.oneof("to", targets)
    # the same step from its own group, by its distance (steps without number are counted too)
    d = at.group.index(at) - at.group.index(t) if t in at.group else 0
    ref = ctx.oneof("form", ["ref", "prev"] if d > 0 else ["ref"])
    ref = f":previous:{d}::" if ref == "prev" else f":ref:{t.label}::"
    inner = ["a", f"Step ⟨{t.full()}⟩"]
    src, exp = document(roots, F.Words(ctx.char("c", LETTERS)), lambda s, p: (
        ((ref, [inner]), None) if s is at and p == "statement" else (None, None)))
    html = to_html(to_tree(src), True)
    ctx.observe(html)
    root = verify(ctx, html, True, flat, exp)
    links = [x for x in root.iter() if x.tag == "a" and "reference" in x.classes]
    ctx.check(len(links) == 1 and links[0].get("href") == "#" + t.label, "the link leads to another step")
    ctx.done()


WRAPS = {
    "plain": lambda r, e: (r, e),
    "strong": lambda r, e: (f"*q {r} q*", [["span", "q ", *e, " q"]]),
    "claim": lambda r, e: (f":claim: q {r} q ::", [["construct", "q ", *e, " q"]]),
    "note": lambda r, e: (f":note: q {r} q::", [["note", "q ", *e, " q"]]),
}


def previous(ctx):
    """References to any previous step, from any step."""
    hr = ctx.flag("hr")
    roots, flat = shape(ctx, ctx.params["n"], ctx.params["depth"], ctx.params["proofs"])
    at = ctx.oneof("at", flat)
    place = ctx.oneof("place", ["statement", "tail"] if at.kids else ["statement"])
    if place == "tail":
        at.style = ctx.oneof("y", ["tail", "late"])
    wrap = ctx.oneof("wrap", ctx.params["wraps"])
    text = ctx.oneof("text", ["", "own"]) if wrap == "plain" else ""
    form = ctx.oneof("form", ["prev", "prev2", "n"])
    if form == "n":
        d = ctx.char("n", "123456789")
        c = ctx.char("o", LETTERS) if text else ""
        ref, dist = f":previous:{d}" + (f",own{c} txt" if text else "") + "::", d
        shown = f"own{c} txt" if text else ""
    elif text:
        ctx.stop()
    else:
        ref, dist, shown = f":{form}:", "1" if form == "prev" else "2", ""
    every = ctx.oneof("lab", ["all", "none"])
    for s in flat:
        s.label = ("l" + ctx.char(f"l{s.i}", LETTERS) + str(s.i)) if every == "all" else ""
    here = at.group.index(at)
    target = None
    for k in range(1, here + 1):
        if dist == str(k):
            target = at.group[here - k]
    w = F.Words()
    inner = ["a", shown or (f"Step ⟨{target.full()}⟩" if target else "")]
    r, e = WRAPS[wrap](ref, [inner])

    def extra(s, p):
        return ((r, e), None) if s is at and p == place else (None, None)

    src, exp = document(roots, w, extra)
    try:
        tr, cap = with_capture(lambda: to_tree(src))
    except transformer.RSMTransformerError:
        ctx.check(target is None, "an existing step is refused")
        ctx.done()
    ctx.check(target is not None, "a step that does not exist is not refused")
    html = to_html(tr, hr)
    ctx.observe(html)
    root = verify(ctx, html, hr, flat, exp)
    links = [x for x in root.iter() if x.tag == "a" and "reference" in x.classes]
    ctx.check(len(links) == 1, "not one link")
    ctx.check(links[0].get("href") == "#" + target.label, "the link leads to another step")
    warned = [m for m in cap.messages(logging.WARNING) if "un-labeled step" in m]
    ctx.check(len(warned) == (0 if target.label else 1), "warning about an unlabelled step is wrong")
    ctx.done()


def outside(ctx):
    """Outside of any step every such reference is refused."""
    where = ctx.oneof("where", ["paragraph", "theorem", "proof", "sketch", "item", "section", "after", "note"])
    form = ctx.oneof("form", ["prev", "prev2", "n"])
    ref = f":previous:{ctx.char('n', '123456789')}::" if form == "n" else f":{form}:"
    ref = f"Foo {ref} bar.\n\n"
    steps = ":proof:\n\n:step:\n  :label: aa\n\nA\n\n::\n\n:step: B ::\n\n::\n\n"
    body = {
        "paragraph": ref + steps,
        "after": steps + ref,
        "theorem": steps + f":theorem:\n\n{ref}::\n\n",
        "proof": f":proof:\n\n:step: A ::\n\n:step: B ::\n\n{ref}::\n\n",
        "sketch": steps + f":sketch:\n\n{ref}::\n\n",
        "item": steps + f":itemize:\n\n:item: {ref}::\n\n",
        "section": steps + f"## Sec\n\n{ref}",
        "note": steps + "Foo :note: " + ref.strip() + " :: bar.\n\n",
    }[where]
    src = F.manuscript(body, bib=False)
    if not F.grammar_ok(src):
        ctx.stop()
    try:
        to_tree(src)
    except transformer.RSMTransformerError:
        ctx.done()
    ctx.fail("a reference to a previous step outside of a step is accepted")


def by_label(ctx):
    """References to steps by their label, from anywhere, show the full number."""
    hr = ctx.flag("hr")
    roots, flat = shape(ctx, ctx.params["n"], ctx.params["depth"], 2)
    at = ctx.oneof("at", flat)
    for s in flat:
        s.label = ("l" + ctx.char(f"l{s.i}", LETTERS)) if s.i < 2 else f"m{s.i}"
    if len(flat) > 1 and flat[0].label == flat[1].label:
        ctx.stop()
    want = "l" + ctx.char("w", LETTERS)
    target = next((s for s in flat[:2] if s.label == want), None)
    if target is None:
        ctx.stop()
    inner = ["a", f"Step ⟨{target.full()}⟩"]
    src, exp = document(roots, F.Words(), lambda s, p: (
        ((f":ref:{want}::", [inner]), None) if s is at and p == "statement" else (None, None)))
    html = to_html(to_tree(src), hr)
    ctx.observe(html)
    root = verify(ctx, html, hr, flat, exp)
    links = [x for x in root.iter() if x.tag == "a" and "reference" in x.classes]
    ctx.check(len(links) == 1 and links[0].get("href") == "#" + target.label, "the link leads to another step")
    ctx.done()


HARNESSES = [
    dict(fn=tree, params={"n": 4, "depth": 3, "proofs": 0, "styles": STYLES},
         thorough={"n": 6, "depth": 4, "proofs": 2, "styles": STYLES + ["text"]}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 1500},
         bounds="all trees of 4 (thorough 6) steps to depth 3 (4), subproofs written in 4 (5) ways, "
                "empty statements and subproofs"),
    dict(fn=previous, params={"n": 4, "depth": 3, "proofs": 2, "wraps": ["plain", "claim"]},
         thorough={"n": 5, "depth": 4, "proofs": 2, "wraps": list(WRAPS)}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 1500},
         bounds="all trees of 4 (thorough 5) steps in up to 2 proofs, any referring step, any distance 1 to 9"),
    dict(fn=unnumbered, params={"n": 4, "depth": 3}, thorough={"n": 5, "depth": 3}, witness_rate=0.05,
         budget={"quick": 60, "thorough": 900},
         bounds="all trees of 4 (thorough 5) steps in up to 2 proofs, any subset not numbered, a reference "
                "by label or distance to any numbered one"),
    dict(fn=outside, witness_rate=0.2, bounds="8 places outside of any step, any distance 1 to 9"),
    dict(fn=by_label, params={"n": 4, "depth": 3}, thorough={"n": 5, "depth": 4}, witness_rate=0.05,
         bounds="references by symbolic labels to steps of any tree of 4 (thorough 5) steps"),
    dict(fn=long, params={"n": 6, "depth": 4}, thorough={"n": 8, "depth": 5}, witness_rate=0.02,
         budget={"quick": 60, "thorough": 900},
         bounds="all trees of 6 (thorough 8) steps to depth 4 (5), a reference by distance from the last step"),
]
