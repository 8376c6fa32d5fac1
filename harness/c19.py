"""C19: the page answers its reader.

RSM's own page scripts (rsm/static/*.js) are parsed from the tree on every run and executed
by a symbolic interpreter on a document model of the page that RSM renders.  Which handrails
are collapsed, which 'collapse all' has been used, which menu item is marked, whether the
clipboard and the external libraries answer, and where things are on the screen are solver
variables.  A counterexample is replayed in node: the real scripts, an independent document
model, and nothing but the reader's own actions to bring about the state in question.
"""

import copy
import os
import re
import sys

from jsx import interp as J
from jsx import selectors as S
from jsx.dom import Alt, Element, NativePage, Page, Text, Unmodelled
from jsx.sym import SymBool, SymInt

from .common import *

ASSUMPTIONS = [
    "the document model (elements, classes, events, focus, computed display) stands for the browser; "
    "replays use a second, independent one in node",
    "getComputedStyle knows display only; media queries in the style sheet are left out",
    "the state of the page is given by what each collapse control and each 'collapse all' changes in "
    "the page as loaded; states are replayed through clicks only",
    "jQuery, Tooltipster, MathJax and pseudocode are not there: tooltips are outside",
]

STATIC = os.path.join(os.path.dirname(os.path.abspath(rsm.__file__)), "static")
SYMBOLIC = "symex.explore" in sys.modules

SOURCES = {
    "proof": """:rsm:
  :title: Title

## First
  :label: one

:theorem:
  :label: thm

  Words.

::

:proof:

  :step:
    :label: sa

    Step a.

    :p:

      Inside.

      :step:
        :label: sb

        Step b.

        :p:

          Deeper.

          :step:

            Step c.

            :p:

              Deepest.

            ::

          ::

        ::

      ::

      :step:

        Step d.

      ::

    ::

  ::

  :step:

    Step e.

    :p:

      No steps here.

    ::

  ::

  :step:

    Step f.

  ::

::

## Last

The end.

::
""",
    "sections": """:rsm:
  :title: Title

:author:
  :name: Somebody

::

:abstract:
  :label: abs

  Abstract with :ref:one::.

::

:toc:

## First
  :label: one

A paragraph on :ref:thm::.

### Inner
  :label: inner

Another paragraph.

:theorem:
  :label: thm

  Words.

::

### Inner too
  :label: inner2

Text.

## Second
  :label: two

A last paragraph.

:definition:

  What.

::

::
""",
    "plain": """:rsm:
  :title: Title

A paragraph.

## Only
  :label: only

:remark:
  :label: rem

  Words.

::

Something :ref:rem::.

::
""",
}


def render(source):
    return str(rsm.render(source=source, handrails=True))


HTML = {k: render(s) for k, s in SOURCES.items()}
with open(os.path.join(STATIC, "rsm.css"), encoding="utf-8") as f:
    CSS = f.read()
if SYMBOLIC:
    J.parse_files([os.path.join(STATIC, f) for f in sorted(os.listdir(STATIC))
                   if f.endswith(".js") and not re.match(r"jquery|tooltipster|tree", f)])


class Hr:
    """A handrail that can be collapsed."""

    def __init__(self, el, control, item):
        self.el, self.control, self.item = el, control, item
        self.icon = child(control, "icon")
        zone = kid(el, "hr-content-zone")
        if "heading" in el.classes:
            self.rest = [k for k in el.parent.elements() if k is not el]
        elif "step" in el.classes:
            self.rest = [k for k in zone.elements() if "statement" not in k.classes]
        else:
            self.rest = [k for k in zone.elements() if "hr-label" not in k.classes]


class All:
    """A handrail with a 'collapse all' item."""

    def __init__(self, el, item, hrs):
        self.el, self.item, self.icon = el, item, child(item, "icon")
        zone = kid(el, "hr-content-zone")
        if "step" in el.classes:
            zone = kid(kid(zone, "subproof"), "hr-content-zone")
        self.steps = [i for i, h in enumerate(hrs) if h.el.parent is zone and "step" in h.el.classes]


def kid(el, cls):
    return next((k for k in el.elements() if cls in k.classes), None) if el else None


def child(el, cls):
    return next((k for k in el.descendants() if cls in k.classes), None) if el else None


class View:
    """What the reader sees of a page: its handrails, menus and places to go to."""

    def __init__(self, page):
        self.page = page
        self.els = [page.root, *page.root.descendants()]
        self.hrs = [e for e in self.els if "hr" in e.classes]
        self.coll, self.alls, self.menus = [], [], []
        for e in self.hrs:
            menu = kid(kid(e, "hr-menu-zone"), "hr-menu")
            items = [k for k in menu.elements() if "hr-menu-item" in k.classes] if menu else []
            on = lambda c: next((k for k in items if c in k.classes and "disabled" not in k.classes), None)
            button = kid(kid(e, "hr-collapse-zone"), "hr-collapse")
            if button or on("collapse-subproof"):
                self.coll.append(Hr(e, button or on("collapse-subproof"), on("collapse-subproof")))
            if menu:
                self.menus.append((e, kid(e, "hr-menu-zone"), menu, items, child(kid(e, "hr-border-zone"), "hr-border-dots")))
        for e, _, _, items, _ in self.menus:
            item = next((k for k in items if "collapse-steps" in k.classes and "disabled" not in k.classes), None)
            if item:
                self.alls.append(All(e, item, self.coll))
        self.focus = [e for e in self.els if e.attrs.get("tabindex") != "-1"
                      and ("tabindex" in e.attrs or e.tag == "a" and "href" in e.attrs)]
        zones = {id(z): k for k, (_, z, _, _, _) in enumerate(self.menus)}
        rest = {}
        for i, h in enumerate(self.coll):
            for r in h.rest:
                rest.setdefault(id(r), []).append(i)
        self.gov, self.base, self.inmenu = {}, {}, {}
        for e in self.els:
            p = e.parent if isinstance(e.parent, Element) else None
            self.gov[id(e)] = (self.gov[id(p)] if p else []) + rest.get(id(e), [])
            self.inmenu[id(e)] = zones.get(id(e), self.inmenu[id(p)] if p else None)
            own = True if id(e) in zones else not page.undisplayed(e)
            self.base[id(e)] = own and (self.base[id(p)] if p else True)

    def inside(self, e, h):
        return h.el is not e and h.el.do_contains(e)


def fresh(name, cls=None, **kw):
    page = (cls or (Page if SYMBOLIC else NativePage))(HTML[name], STATIC, css=CSS, **kw)
    return page, View(page)


# --- states -------------------------------------------------------------------------------

def shot(v):
    return [(dict(e.classes), dict(e.attrs), dict(e.style.d),
             "".join(k.raw for k in e.kids) if e.kids and all(isinstance(k, Text) for k in e.kids) else None) for e in v.els]


def changes(a, b):
    out = []
    for i, (x, y) in enumerate(zip(a, b)):
        for kind in (0, 1, 2):
            for k in sorted(x[kind].keys() | y[kind].keys()):
                if x[kind].get(k) != y[kind].get(k):
                    out.append((i, kind, k, x[kind].get(k), y[kind].get(k)))
        if x[3] != y[3]:
            out.append((i, 3, None, x[3], y[3]))
    return out


class Template:
    """A page after loading, and what each control changes in it."""

    def __init__(self, name):
        self.name, self.error = name, None
        try:
            self.load()
            self.coll = [self.learn(lambda v, i=i: self.press(v, v.coll[i])) for i in range(len(self.v.coll))]

            def all_(v, i):
                self.press(v, v.alls[i])
                for k in v.alls[i].steps:
                    self.press(v, v.coll[k])
            self.alls = [self.learn(lambda v, i=i: all_(v, i)) for i in range(len(self.v.alls))]
            if self.dirty:
                self.load()
        except (J.Unsupported, RecursionError) as e:
            self.error = f"{type(e).__name__}: {e}"

    def load(self):
        self.page, self.v = fresh(self.name)
        self.page.onload()
        self.first = shot(self.v)
        self.dirty = bool(self.page.errors)

    def press(self, v, h):
        self.page.click(h.control if isinstance(h, Hr) else h.item)

    def learn(self, act):
        if self.dirty:
            self.load()
        act(self.v)
        d = changes(self.first, shot(self.v))
        act(self.v)
        self.dirty = bool(self.page.errors) or bool(changes(self.first, shot(self.v)))
        return d


TEMPLATES = {k: Template(k) for k in SOURCES} if SYMBOLIC else {}


class Unencodable(Exception):
    pass


def guarded(f):
    """A harness; where the scripts use what the interpreter does not know, the path is left open."""
    def run(ctx):
        if not ctx.symbolic:
            try:
                return f(ctx)
            except Unmodelled:
                ctx.stop()
        from symex.engine import ENGINE, PathAbort
        from symex.explore import _FUNCS

        J.CALLED.clear()
        try:
            return f(ctx)
        except (J.Unsupported, RecursionError) as e:
            ENGINE.incomplete.append(f"scripts not encodable: {e}"[:120])
            raise PathAbort("unsupported")
        finally:
            _FUNCS.update(("rsm/static/" + a, b) for a, b in J.CALLED if a)
    run.__name__ = f.__name__
    return run


def opened(ctx, name, **kw):
    """The page, loaded."""
    if ctx.symbolic and not kw:
        t = TEMPLATES[name]
        if t.error:
            raise J.Unsupported(t.error)
        t.page.clear()
        return t.page, t.v
    page, v = fresh(name, **kw)
    page.onload()
    return page, v


def ite(c, a, b):
    if c is True or c is False:
        return a if c else b
    return S.either(S.both(c, a), S.both(S.no(c), b))


def iff(a, b):
    return ite(a, b, S.no(b))


def every(xs):
    r = True
    for x in xs:
        r = S.both(r, x)
    return r


def some(xs):
    r = False
    for x in xs:
        r = S.either(r, x)
    return r


def bring(ctx, name, page, v, b, a):
    """The page gets into the state: handrail i collapsed iff b[i], 'collapse all' i used iff a[i]."""
    if not ctx.symbolic:
        for i in reversed(range(len(a))):
            if a[i]:
                page.click(v.alls[i].item)
        shut = {k for i in range(len(a)) if a[i] for k in v.alls[i].steps}
        for i in sorted(shut):
            page.click(v.coll[i].control)
        for i in reversed(range(len(b))):
            if b[i]:
                page.click(v.coll[i].control)
        return
    t = TEMPLATES[name]
    for cond, d in [*zip(b, t.coll), *zip(a, t.alls)]:
        if cond is False:
            continue
        for i, kind, key, x, y in d:
            e = v.els[i]
            if kind == 0:
                page.set_class(e, key, ite(cond, bool(y), e.classes.get(key, False)))
            elif kind == 3 and len(e.kids) == 1:
                e.kids[0].raw = Alt(cond, y, e.kids[0].raw)
            elif bool(cond):
                if kind == 3:
                    e.set_textContent(y)
                elif kind == 1:
                    e.attrs[key] = y
                    if y is None:
                        del e.attrs[key]
                else:
                    e.style.put(key, y)


def state(ctx, name, page, v):
    """Any state of the collapse controls."""
    b = [ctx.symflag(f"collapsed{i}") for i in range(len(v.coll))]
    a = [ctx.symflag(f"all{i}") for i in range(len(v.alls))]
    bring(ctx, name, page, v, b, a)
    return b, a


# --- what must be so ------------------------------------------------------------------------

def say(e):
    t = re.sub(r"\s+", " ", e.text()).strip()
    return f"<{e.tag} class='{' '.join(e.classes)}' id='{e.attrs.get('id', '')}'> {t[-30:]!r}" if not SYMBOLIC else e.tag


def all_shown(page, els):
    out = {}
    for e in els:
        p = e.parent if isinstance(e.parent, Element) else None
        up = (out[id(p)] if id(p) in out else page.shown(p)) if p is not None else True
        out[id(e)] = S.both(up, S.no(page.undisplayed(e)))
    return out


def text_is(el, t):
    if len(el.kids) == 1 and isinstance(el.kids[0], Text) and isinstance(el.kids[0].raw, Alt):
        return el.kids[0].raw.equals(t)
    return el.text().strip() == t


def good(ctx, page, v, b, a, menus=None, errors=True):
    """The page shows exactly what the state says."""
    if errors:
        ctx.check(not page.errors, f"a script fails: {page.errors[:2]}")
    shown = all_shown(page, v.els)
    menus = menus or {}
    conds = []
    for e in v.els:
        want = v.base[id(e)]
        if want:
            want = S.no(some(b[i] for i in v.gov[id(e)]))
            if v.inmenu[id(e)] is not None:
                want = S.both(want, menus.get(v.inmenu[id(e)], False))
        conds.append((iff(shown[id(e)], want), e, want))
    claim(ctx, conds, lambda e, want: f"{say(e)} is {'not ' if want else ''}displayed, but should {'' if want else 'not '}be")
    conds = []
    for x, on, words in [*((h, b[i], ("collapse", "expand", "Collapse", "Expand")) for i, h in enumerate(v.coll)),
                         *((h, a[i], ("collapse-all", "expand-all", "Collapse all", "Expand all")) for i, h in enumerate(v.alls))]:
        cl = x.icon.classes
        conds.append((iff(cl.get(words[1], False), on), x.el, "icon"))
        conds.append((iff(cl.get(words[0], False), S.no(on)), x.el, "icon"))
        item = x.item
        if item:
            t = child(item, "hr-menu-item-text")
            conds.append((ite(on, text_is(t, words[3]), text_is(t, words[2])), x.el, "text"))
    claim(ctx, conds, lambda e, what: f"the {what} of the control of {say(e)} does not tell its state")


def claim(ctx, conds, message):
    if ctx.symbolic:
        ctx.check(every(c for c, *_ in conds), "the page is not as its state says")
        return
    for c, *rest in conds:
        ctx.check(c, message(*rest))


def drawing(icon):
    return [e.attrs.get("d") for e in icon.descendants() if e.tag == "path"]


def seen(ctx, page, v, extra=()):
    """What is compared between the two executions."""
    shown = all_shown(page, v.els)
    ctx.observe([[shown[id(e)] for e in v.hrs], v.els.index(page.active) if page.active in v.els else -1,
                 len(page.errors), list(page.clipboard), *extra])


def ways(h):
    out = ["control", "icon", "key"]
    if h.item:
        out.append("enter")
    return out


def to_item(page, v, el, item):
    """Open the menu of the focused handrail and mark an item."""
    items = next(m[3] for m in v.menus if m[0] is el)
    page.key(".")
    for _ in range(items.index(item) + 1):
        page.key("ArrowDown")
    page.key("Enter")


@guarded
def toggle(ctx):
    """One collapse control, in any state of all of them."""
    name = ctx.oneof("page", ctx.params["pages"])
    page, v = opened(ctx, name)
    i = ctx.choose("which", len(v.coll))
    h = v.coll[i]
    way = ctx.oneof("way", ways(h))
    b, a = state(ctx, name, page, v)
    before = drawing(h.icon)
    menus = {}
    if way == "control":
        page.click(h.control)
    elif way == "icon":
        page.click(h.icon)
    else:
        page.set_active(h.el)
        if way == "key":
            page.key(",")
        else:
            to_item(page, v, h.el, h.item)
            menus = {next(k for k, m in enumerate(v.menus) if m[0] is h.el): True}
    page.settle()
    b = list(b)
    b[i] = S.no(b[i])
    good(ctx, page, v, b, a, menus)
    ctx.check(way not in ("key", "enter") or page.active is h.el, "the focus moved")
    ctx.check(drawing(h.icon), "the control has lost its drawing")
    seen(ctx, page, v)
    ctx.done()


@guarded
def twice(ctx):
    """Collapsing and expanding again; the drawings of the controls."""
    name = ctx.oneof("page", ctx.params["pages"])
    page, v = opened(ctx, name)
    i = ctx.choose("which", len(v.coll) + len(v.alls))
    h = [*v.coll, *v.alls][i]
    act = h.control if isinstance(h, Hr) else h.item
    n = 1 + ctx.choose("times", 3)
    for _ in range(n):
        page.click(act)
    page.settle()
    b = [False] * len(v.coll)
    a = [False] * len(v.alls)
    if n % 2:
        if isinstance(h, Hr):
            b[i] = True
        else:
            a[i - len(v.coll)] = True
            for k in h.steps:
                b[k] = True
    good(ctx, page, v, b, a)
    peers = v.coll if isinstance(h, Hr) else v.alls
    other = next((x for x in peers if x is not h), None)
    if other:
        ctx.check((drawing(h.icon) == drawing(other.icon)) == (n % 2 == 0),
                  "the drawing of a control does not tell whether its handrail is collapsed")
    seen(ctx, page, v)
    ctx.done()


@guarded
def collapse_all(ctx):
    """One 'collapse all' item, in any state."""
    name = "proof"
    page, v = opened(ctx, name)
    i = ctx.choose("which", len(v.alls))
    x = v.alls[i]
    way = ctx.oneof("way", ["item", "icon", "key", "enter"])
    b, a = state(ctx, name, page, v)
    menus = {}
    if way == "item":
        page.click(x.item)
    elif way == "icon":
        page.click(x.icon)
    else:
        page.set_active(x.el)
        if way == "key":
            page.key(";")
        else:
            to_item(page, v, x.el, x.item)
            menus = {next(k for k, m in enumerate(v.menus) if m[0] is x.el): True}
    page.settle()
    a = list(a)
    a[i] = S.no(a[i])
    b = [a[i] if k in x.steps else c for k, c in enumerate(b)]
    good(ctx, page, v, b, a, menus)
    seen(ctx, page, v)
    ctx.done()


def menu_of(v, el):
    return next((k for k, m in enumerate(v.menus) if m[0] is el), None)


@guarded
def menu(ctx):
    """Opening and closing the menus of two handrails, in any state of the collapse controls."""
    name = ctx.oneof("page", ctx.params["pages"])
    page, v = opened(ctx, name)
    n = len(v.menus)
    i = ctx.choose("first", n)
    j = (i + ctx.oneof("second", ctx.params["apart"])) % n
    act = ctx.oneof("act", ["dots", "icon", "key", "leave", "key twice", "dots, key"])
    b, a = state(ctx, name, page, v)
    page.click(v.menus[i][4])
    open_ = {i: True}
    el, zone, box, items, dots = v.menus[j]
    if act == "dots":
        page.click(dots)
        open_[j] = True
    elif act == "icon":
        page.click(child(dots, "icon"))
        open_[j] = True
    elif act == "leave":
        page.set_active(el)
        page.key("ArrowDown")
        page.key("ArrowUp")
        page.fire(box, "mouseleave", {}, False)
        open_[j] = False
    else:
        page.set_active(el)
        if act == "dots, key":
            page.click(dots)
            open_[j] = True
        page.key(".")
        open_[j] = not open_.get(j)
        if act == "key twice":
            page.key("ArrowDown")
            page.key(".")
            open_[j] = not open_.get(j)
    page.settle()
    good(ctx, page, v, b, a, open_)
    for k, (_, z, _, its, _) in enumerate(v.menus):
        if not open_.get(k):
            ctx.check(not any("active" in it.classes for it in its), "an item of a closed menu is still marked")
    seen(ctx, page, v)
    ctx.done()


@guarded
def arrows(ctx):
    """The mark in an open menu, wherever it is; arrows elsewhere do nothing."""
    name = ctx.oneof("page", ctx.params["pages"])
    page, v = opened(ctx, name)
    k = ctx.choose("which", len(v.menus) + 1)
    key = ctx.oneof("key", ["ArrowDown", "ArrowUp"])
    if k == len(v.menus):
        page.set_active(next(e for e in v.focus if e.tag == "a" or not menu_of(v, e)))
        page.key(key)
        page.settle()
        good(ctx, page, v, [False] * len(v.coll), [False] * len(v.alls))
        seen(ctx, page, v)
        ctx.done()
    el, zone, box, items, dots = v.menus[k]
    n = len(items)
    shut = ctx.flag("closed")
    page.set_active(el)
    if shut:
        page.key(key)
        page.settle()
        ctx.check(not page.errors, f"a script fails: {page.errors[:2]}")
        ctx.check(not any("active" in it.classes for it in items), "an item of a closed menu is marked")
        seen(ctx, page, v)
        ctx.done()
    page.key(".") if ctx.flag("by key") else page.click(dots)
    at = ctx.int("marked", -1, n - 1)
    if ctx.symbolic:
        for p, it in enumerate(items):
            page.set_class(it, "active", at == p)
    else:
        for _ in range(at + 1):
            page.key("ArrowDown")
    page.key(key)
    page.settle()
    ctx.check(not page.errors, f"a script fails: {page.errors[:2]}")
    for p, it in enumerate(items):
        here = it.classes.get("active", False)
        # the mark was on the item before or after this one, or there was none and this is the first
        was = at == ((p - 1) % n if key == "ArrowDown" else (p + 1) % n)
        want = S.either(was, at == -1) if p == 0 else was
        ctx.check(iff(here, want), f"{key} does not move the mark by one item")
    ctx.check(page.display(zone) == "block", "the menu is not open any more")
    ctx.observe([it.classes.get("active", False) for it in items])
    ctx.done()


def kinds(xs, key):
    """One of each kind, by the classes."""
    out = {}
    for x in xs:
        out.setdefault(tuple((e.tag, *sorted(e.classes)) for e in key(x)), x)
    return list(out.values())


@guarded
def idle(ctx):
    """Keys and clicks where there is nothing for them to do; Enter on other items."""
    name = ctx.oneof("page", ctx.params["pages"])
    page, v = opened(ctx, name)
    act = ctx.oneof("act", [",", ";", ".", "Enter", "item", "other key", "off"])
    colls, alls = {id(h.el) for h in v.coll}, {id(x.el) for x in v.alls}
    menus = {}
    if act in ("item", "off"):
        # a menu item that is switched off, or one that is not about collapsing
        picks = [(k, it) for k, m in enumerate(v.menus) for it in m[3]
                 if ("disabled" in it.classes if act == "off" else not {"collapse-subproof", "collapse-steps"} & set(it.classes))]
        picks = kinds(picks, lambda p: (v.menus[p[0]][0], p[1]))
        ctx.assume(bool(picks))
        k, it = picks[ctx.choose("which", len(picks))]
    else:
        skip = {",": colls, ";": alls, ".": {id(m[0]) for m in v.menus}}.get(act, set())
        picks = kinds([e for e in v.focus if id(e) not in skip], lambda e: (e,))
        ctx.assume(bool(picks))
        e = picks[ctx.choose("which", len(picks))]
    b, a = state(ctx, name, page, v)
    if act in ("item", "off"):
        menus = {k: True}
        page.set_active(v.menus[k][0])
        to_item(page, v, v.menus[k][0], it)
        if act == "off":
            page.click(it)
    else:
        page.set_active(e)
        page.key(ctx.oneof("key", ["a", "J", "Escape", "ArrowLeft", "Tab"]) if act == "other key" else act)
    page.settle()
    good(ctx, page, v, b, a, menus)
    ctx.check(page.active is (v.menus[k][0] if menus else e), "the focus moved")
    ctx.check(not page.clipboard and not page.scrolls, "something is copied or scrolled")
    seen(ctx, page, v)
    ctx.done()


URLS = ["http://localhost/index.html", "http://localhost/a/b.html#old-1.2", "https://example.org/?q=1#x", "file:///tmp/p.html"]


@guarded
def copy_link(ctx):
    """'Copy link' of every handrail; the notice."""
    name = ctx.oneof("page", ctx.params["pages"])
    url = ctx.oneof("url", URLS)
    works = ctx.symflag("clipboard works")
    page, v = opened(ctx, name, url=url, clipboard=works)
    links = [(el, it) for el, _, _, items, _ in v.menus for it in items if "link" in it.classes]
    el, item = links[ctx.choose("which", len(links))]
    how, end = ctx.oneof("click", [("item", ""), ("icon", "close"), ("text", "wait"), ("icon", "again")])
    page.click({"item": item, "icon": child(item, "icon"), "text": child(item, "hr-menu-item-text")}[how])
    if end == "again":
        page.press(".toast .close")
        page.click(item)
        page.timer()
    elif end == "close":
        page.press(".toast .close")
    elif end == "wait":
        page.timers()
    page.settle()
    ctx.check(not page.errors, f"a script fails: {page.errors[:2]}")
    toasts = [e for e in page.root.descendants() if "toast" in e.classes]
    if "disabled" in item.classes:
        ctx.check(not page.clipboard and not toasts, "a disabled item does something")
        ctx.done()
    target = el.parent if "heading" in el.classes else el
    base = url.split("#")[0]
    if page.clip_ok is True or page.clip_ok is not False and bool(page.clip_ok):
        ok = [base + "#" + target.attrs["id"]] if "level-1" not in target.classes else [base + "#", base]
        ctx.check(len(page.clipboard) == (2 if end == "again" else 1) and all(c in ok for c in page.clipboard), f"the link copied is {page.clipboard}, not {ok[0]}")
        kind = "success"
    else:
        ctx.check(not page.clipboard, "copied although it is refused")
        kind = "error"
    if end in ("close", "wait"):
        ctx.check(not toasts, "the notice does not go away")
    else:
        ctx.check(len(toasts) == 1 and kind in toasts[0].classes and toasts[0].parent is not None
                  and ("copied to clipboard" in toasts[0].text()) == (kind == "success")
                  and page.displayed(toasts[0]), f"there is no notice of {kind}")
    ctx.observe([list(page.clipboard), [t.text() for t in toasts]])
    ctx.done()


def strictly(v, b, e):
    """Inside a handrail that is collapsed."""
    return some(b[i] for i, h in enumerate(v.coll) if v.inside(e, h))


@guarded
def focus(ctx):
    """j and k, in any state of the collapse controls, from anywhere."""
    name = ctx.oneof("page", ctx.params["pages"])
    page, v = opened(ctx, name)
    n = len(v.focus)
    i = ctx.choose("from", n + 1)
    key = ctx.oneof("key", ["j", "k"])
    b, a = state(ctx, name, page, v)
    # the rest of the page is as the state says: that is toggle's business
    sh = {id(e): S.no(some(b[k] for k in v.gov[id(e)])) if v.base[id(e)] else False for e in v.focus}
    if i < n:
        ctx.assume(sh[id(v.focus[i])])
        page.set_active(v.focus[i])
    page.key(key)
    page.settle()
    ctx.check(not page.errors, f"a script fails: {page.errors[:2]}")
    new = page.active
    ctx.check(any(new is e for e in v.focus), "the focus is on nothing one can go to")
    at = next(k for k, e in enumerate(v.focus) if e is new)
    ctx.check(sh[id(new)], "the focus is on something hidden")
    if i == n:
        ctx.check(at == 0, "with nothing focused, one does not start at the top")
    else:
        d = 1 if key == "j" else -1
        p, skipped = (i + d) % n, []
        while p != at:
            skipped.append(v.focus[p])
            p = (p + d) % n
        ctx.check(S.no(some(S.both(sh[id(e)], S.no(strictly(v, b, e))) for e in skipped)),
                  "the focus skips something that is there")
    ctx.check(all(s[0] == "by" for s in page.scrolls) and len(page.scrolls) <= 1, "odd scrolling")
    ctx.observe(at)
    ctx.done()


@guarded
def siblings(ctx):
    """h, l and H, from anywhere."""
    name = ctx.oneof("page", ctx.params["pages"])
    page, v = opened(ctx, name)
    n = len(v.focus)
    i = ctx.choose("from", n + 1)
    key = ctx.oneof("key", ["h", "l", "H"])
    b, a = state(ctx, name, page, v)
    sh = {id(e): S.no(some(b[k] for k in v.gov[id(e)])) if v.base[id(e)] else False for e in v.focus}
    cur = v.focus[i] if i < n else None
    if cur is not None:
        ctx.assume(sh[id(cur)])
        page.set_active(cur)
    page.key(key)
    page.settle()
    ctx.check(not page.errors, f"a script fails: {page.errors[:2]}")
    new = page.active
    if key == "H" or cur is None:
        want = v.focus[0]
    elif "heading" in cur.classes:
        secs = [s for s in cur.parent.parent.elements() if s.tag == "section"]
        if cur.parent not in secs:
            want = cur
        else:
            k = secs.index(cur.parent) + (1 if key == "h" else -1)
            want = child(secs[k], "heading") if 0 <= k < len(secs) else cur
    else:
        peers = [e for e in v.focus if e.parent is cur.parent]
        k = peers.index(cur) + (1 if key == "h" else -1)
        want = peers[k] if 0 <= k < len(peers) else cur
    ctx.check(new is want, f"{key} does not go where it should")
    ctx.check(sh[id(new)], "the focus is on something hidden")
    ctx.observe(v.focus.index(new))
    ctx.done()


class Num:
    """Arithmetic for conditions: on both sides."""

    def __init__(self, ctx):
        self.ctx = ctx

    def of(self, x):
        return J.SymNum.of(x) if self.ctx.symbolic else x

    def cond(self, c):
        return SymBool(c) if self.ctx.symbolic and not isinstance(c, bool) else bool(c)


@guarded
def scrolling(ctx):
    """Where the page scrolls to when the focus moves, wherever things are on the screen."""
    page, v = opened(ctx, "plain")
    N = Num(ctx)
    key = ctx.oneof("key", ["j", "k", "h", "l", "z", "H"])
    i = ctx.choose("from", len(v.focus))
    top, height = ctx.int("top", -4000, 4000), ctx.int("height", 0, 3000)
    page.viewport = ctx.int("viewport", 100, 2000)
    for e in v.focus:
        page.geo[id(e)] = (top, height)
    page.set_active(v.focus[i])
    page.key(key)
    page.settle()
    ctx.check(not page.errors, f"a script fails: {page.errors[:2]}")
    moved = page.active is not v.focus[i]
    t, h, vp = N.of(top), N.of(height), N.of(page.viewport)
    sc = page.scrolls
    ctx.check(len(sc) <= 1 and all(s[0] == "by" for s in sc), "scrolls more than once")
    fits = bool(N.cond(h <= vp))
    off = t + h / 2 - vp / 2
    aim = off if fits else t
    if key in "zH":
        ctx.check(len(sc) == 1, "does not scroll")
        ctx.check(N.cond(N.of(sc[0][1]) == off), "what is focused is not brought to the middle")
        ctx.done()
    if not moved:
        ctx.check(not sc, "scrolls although the focus did not move")
        ctx.done()
    down = key in "jh"
    if sc:
        d = N.of(sc[0][1])
        ctx.check(N.cond(d >= 0 if down else d <= 0), "scrolls against the direction in which the focus moves")
        ctx.check(N.cond(d == aim), "what is focused is not brought to the middle, or its top to the top")
    else:
        near = S.both(N.cond(off <= 48), N.cond(off >= -48)) if fits else False
        ctx.check(S.either(near, N.cond(aim <= 0 if down else aim >= 0)), "what is focused is left where it cannot be seen")
    ctx.done()


def stops(page, kind):
    out = []
    for i in (1, 2):
        e = page.document.do_getElementById(f"stop-follow-{kind}-{i}")
        out.append(e.attrs["offset"])
    return out


@guarded
def contents(ctx):
    """The minimap follows the entries of the table of contents."""
    page, v = opened(ctx, "sections")
    items = [e for e in v.els if e.tag == "li" and "item" in e.classes]
    k = ctx.choose("entry", len(items))
    how = ctx.oneof("how", ["mouse", "focus", "mouse elsewhere first"])
    scroll = stops(page, "scroll")
    link = next(e for e in items[k].descendants() if e.tag == "a")
    if how == "mouse elsewhere first":
        page.fire(items[(k + 1) % len(items)], "mouseenter", {}, False)
    if how == "focus":
        page.fire(link, "focus", {}, False)
    else:
        page.fire(items[k], "mouseenter", {}, False)
    page.settle()
    ctx.check(not page.errors, f"a script fails: {page.errors[:2]}")
    for s in stops(page, "mouse"):
        ctx.check(s.endswith("%") and abs(float(s[:-1]) - 100 * (k + 1) / len(items)) < 1e-6, "the minimap is not at the entry")
    ctx.check(stops(page, "scroll") == scroll, "the other minimap moves")
    ctx.observe(stops(page, "mouse"))
    ctx.done()


@guarded
def scrolled(ctx):
    """The floating minimap, wherever the sections are on the screen."""
    name = ctx.oneof("page", ["sections", "plain"])
    page, v = opened(ctx, name)
    N = Num(ctx)
    page.viewport = ctx.int("viewport", 100, 2000)
    secs = [e for e in v.els if e.tag == "section"]
    where = []
    for i, s in enumerate(secs):
        where.append((ctx.int(f"top{i}", -4000, 4000), ctx.int(f"height{i}", 0, 3000)))
        page.geo[id(s)] = where[-1]
    maps = [e for e in v.els if "minimap" in e.classes]
    flt = next((e for e in maps if "float-minimap-wrapper" in e.parent.classes), None)
    toc = next((e for e in maps if e is not flt), None)
    if toc:
        at = ctx.int("toc top", -4000, 4000), ctx.int("toc height", 1, 500)
        page.geo[id(toc)] = at
        page.geo[id(flt)] = (100, 400)
    circles = {}
    for s in secs:
        c = next((e for e in v.els if e.attrs.get("id") == f"mm-{s.attrs.get('id')}"), None)
        if c:
            circles[id(s)] = len(circles)
            page.geo[id(c)] = (110 + 32 * circles[id(s)], 16)
    before = stops(page, "scroll") if flt else None
    if ctx.flag("twice"):
        page.fire(page.window, "scroll", {}, False)
    page.fire(page.window, "scroll", {}, False)
    page.settle()
    ctx.check(not page.errors, f"a script fails: {page.errors[:2]}")
    if not flt:
        ctx.done()
    vp = N.of(page.viewport)
    visible = S.both(N.cond(N.of(at[0]) < vp), N.cond(N.of(at[0]) + N.of(at[1]) > 0))
    ctx.check(iff(page.shown(flt), S.no(visible)), "the floating minimap is not shown exactly while the table of contents is out of view")
    now = stops(page, "scroll")
    ctx.observe(now)
    if not bool(page.shown(flt)):
        ctx.check(now == before, "the hidden minimap moves")
        ctx.done()
    last = None
    for s, (t, h) in zip(secs, where):
        if bool(S.both(N.cond(2 * N.of(t) < vp), N.cond(N.of(t) + N.of(h) > 0))):
            last = s
    ctx.check(now[0] == now[1], "the two halves of the minimap disagree")
    p = float(now[0].rstrip("%"))
    if last is None or id(last) not in circles:
        ctx.check(p == 0, "the minimap marks a section that is not in view")
    else:
        c = circles[id(last)]
        low, high = (110 + 32 * c + 16 - 100) / 4, (110 + 32 * (c + 1) - 100) / 4
        ctx.check(low <= p <= high, "the minimap does not mark the last section in view")
    ctx.done()


@guarded
def libraries(ctx):
    """Whichever of the external libraries cannot be had, everything else is set up."""
    lost = {"mathjax": ctx.symflag("no MathJax"), "pseudocode": ctx.symflag("no pseudocode")}
    name = ctx.oneof("page", ctx.params["pages"])
    act = ctx.oneof("act", ["toggle", "key", "menu", "focus", "minimap", "icons"])
    if ctx.symbolic:
        page, v = fresh(name, scripts=lambda src: S.no(next((c for k, c in lost.items() if k in src.lower()), False)))
    else:
        page, v = fresh(name, failing=[k for k in lost if lost[k]])
    page.onload()
    b = [False] * len(v.coll)
    a = [False] * len(v.alls)
    menus, h = {}, v.coll[-1]
    if act == "toggle":
        page.click(h.control)
        b[-1] = True
    elif act == "key":
        page.set_active(h.el)
        page.key(",")
        b[-1] = True
    elif act == "menu":
        page.click(v.menus[1][4])
        menus = {1: True}
    elif act == "focus":
        page.set_active(v.focus[0])
        page.key("j")
    items = [e for e in v.els if e.tag == "li" and "item" in e.classes]
    if act == "minimap" and items:
        page.fire(items[0], "mouseenter", {}, False)
    page.settle()
    good(ctx, page, v, b, a, menus)
    if act == "focus":
        ctx.check(page.active is v.focus[1], "j does not go to the next element")
    if act == "minimap" and items:
        ctx.check(abs(float(stops(page, "mouse")[0].rstrip("%")) - 100 / len(items)) < 1e-6, "the minimap is not at the entry")
    if act == "icons":
        known = {"collapse", "collapse-all", "ext", "dots", "link", "tree", "code"}
        for e in v.els:
            if "icon" in e.classes and known & set(e.classes):
                ctx.check(any(k.tag == "svg" for k in e.elements()), f"the icon {sorted(e.classes)} has no drawing")
    seen(ctx, page, v)
    ctx.done()


@guarded
def resized(ctx):
    """The zones of a shifted handrail are as high as its content."""
    name = ctx.oneof("page", ctx.params["pages"])
    page, v = opened(ctx, name)
    add = ctx.oneof("more", [0, 7])
    for i, e in enumerate(v.els):
        page.geo[id(e)] = (0, 10 + i + add)
    page.resize()
    page.settle()
    ctx.check(not page.errors, f"a script fails: {page.errors[:2]}")
    for e in v.hrs:
        z = kid(e, "hr-content-zone")
        for cls in ("hr-border-zone", "hr-spacer-zone", "hr-info-zone"):
            k = kid(e, cls)
            if k:
                want = f"{page.geometry(z)[1]}px" if "hr-offset" in e.classes else None
                ctx.check(k.style.d.get("height") == want, f"the {cls} of a handrail is {k.style.d.get('height')}, not {want}")
    ctx.observe([e.style.d.get("height") for e in v.els])
    ctx.done()


PAGES = {"pages": ["proof", "sections", "plain"]}
HARNESSES = [
    dict(fn=toggle, batch=1, params={"pages": ["proof", "sections"]}, witness_rate=0.2,
         bounds='pages "proof" and "sections"; each of their collapse controls; by control, icon, key or Enter on the marked item; all states of all collapse controls and collapse-alls (independent solver booleans)'),
    dict(fn=twice, batch=1, params=PAGES,
         bounds='the three pages, each control, one to three uses'),
    dict(fn=collapse_all, batch=1,
         bounds='page "proof": each collapse-all, four ways, all states'),
    dict(fn=menu, batch=1, params={"pages": ["proof", "plain"], "apart": [0, 1]}, thorough={**PAGES, "apart": [0, 1, 2, 5]},
         bounds='menus of two handrails (same or next; thorough: also further apart), six sequences of actions, all states of the collapse controls'),
    dict(fn=arrows, batch=1, params=PAGES,
         bounds='each menu of each page, open or closed, both arrows, any mark (solver integer)'),
    dict(fn=idle, batch=1, params={"pages": ["proof", "sections"]}, thorough=PAGES,
         bounds="each kind of place and of menu item without a collapse action, keys for all, all states of the collapse controls"),
    dict(fn=copy_link, batch=1, params={"pages": ["sections"]}, thorough=PAGES,
         bounds='each copy-link item, four addresses, clipboard allowed or not (solver boolean), notice left, closed or timed out'),
    dict(fn=focus, batch=1, params=PAGES,
         bounds='j and k from each place or none, all states of the collapse controls'),
    dict(fn=siblings, batch=1, params=PAGES,
         bounds='h, l, H from each place or none, all states'),
    dict(fn=scrolling, batch=1,
         bounds='six keys from each place; position, height and viewport are solver integers in [-4000,4000], [0,3000], [100,2000]'),
    dict(fn=contents, batch=1,
         bounds='each entry of the contents, by mouse or focus, with or without one before'),
    dict(fn=scrolled, batch=1,
         bounds='position and height of each section and of the contents, and the viewport, are solver integers as above; with and without table of contents; one or two scroll events'),
    dict(fn=libraries, batch=1, params={"pages": ["sections"]}, thorough=PAGES,
         bounds='MathJax and pseudocode had or not (solver booleans), then one of six actions'),
    dict(fn=resized, batch=1, params=PAGES,
         bounds='the three pages, two sets of heights'),
]
for _h in HARNESSES:
    _h["witness_limit"] = 5
