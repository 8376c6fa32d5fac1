"""A document object model whose classes may be symbolic, for the JavaScript interpreter."""

import html as htmllib
import json
import os
import re
from html.parser import HTMLParser

from .sym import SymBool

from . import selectors as S
from .interp import (HOLE, U, Host, Interp, JSArray, JSFunction, JSObject, JSThrow, Promise, SymNum, Unsupported, call,
                     describe, error, iterate, key_of, norm, to_num, to_str, truthy)

VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}
INLINE = {"a", "span", "em", "strong", "i", "b", "code", "img", "input", "button", "label", "select", "textarea", "svg", "sub", "sup", "small", "u", "s", "del", "ins", "br"}


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")) as _f:
    NAMES = {k: frozenset(x for x in v if not x.startswith("on")) for k, v in json.load(_f).items()}
NODE_LIST, COLLECTION = {"forEach", "entries", "keys", "values"}, {"namedItem"}


class Node(Host):
    def __init__(self, page):
        super().__init__()
        self.page, self.parent, self.listeners = page, None, []

    def do_addEventListener(self, kind, f=U, opts=U):
        once = isinstance(opts, JSObject) and truthy(opts.get("once"))
        capture = opts is True or isinstance(opts, JSObject) and truthy(opts.get("capture"))
        if not any(k == kind and g is f and c == capture for k, g, o, c in self.listeners):
            self.listeners.append((kind, f, once, capture))
        return U

    def do_removeEventListener(self, kind, f=U, opts=U):
        capture = opts is True or isinstance(opts, JSObject) and truthy(opts.get("capture"))
        self.listeners = [x for x in self.listeners if not (x[0] == kind and x[1] is f and x[3] == capture)]
        return U

    def do_dispatchEvent(self, ev):
        ev.dispatch(self)
        return not ev.prevented

    def do_appendChild(self, c):
        self.insert(len(self.kids), [c])
        return c

    def insert(self, i, nodes):
        for c in nodes:
            if not isinstance(c, Node):
                raise error("TypeError", "parameter 1 is not of type 'Node'.")
            p = self
            while p is not None:
                if p is c:
                    raise error("HierarchyRequestError", "The new child element contains the parent.")
                p = p.parent
            if c.parent is self and self.kids.index(c) < i:
                i -= 1
            c.detach()
            self.kids.insert(i, c)
            c.parent = self
            i += 1
            if isinstance(c, Element):
                self.page.inserted(c)

    def nodes_of(self, args):
        return [Text(self.page, to_str(a)) if not isinstance(a, Node) else a for a in args]

    def do_append(self, *a):
        self.insert(len(self.kids), self.nodes_of(a))
        return U

    def do_prepend(self, *a):
        self.insert(0, self.nodes_of(a))
        return U

    def do_insertBefore(self, c, ref=None):
        self.insert(len(self.kids) if ref is None or ref is U else self.kids.index(ref), [c])
        return c

    def do_removeChild(self, c):
        if c.parent is not self:
            raise error("NotFoundError", "The node to be removed is not a child of this node.")
        c.detach()
        return c

    def do_replaceChildren(self, *a):
        for c in list(self.kids):
            c.detach()
        return self.do_append(*a)

    def detach(self):
        if self.parent is not None:
            self.parent.kids.remove(self)
            self.parent = None
            self.page.removed(self)

    def do_remove(self):
        self.detach()
        return U

    def do_before(self, *a):
        self.parent.insert(self.parent.kids.index(self), self.nodes_of(a))
        return U

    def do_after(self, *a):
        self.parent.insert(self.parent.kids.index(self) + 1, self.nodes_of(a))
        return U

    def do_replaceWith(self, *a):
        p = self.parent
        i = p.kids.index(self)
        self.detach()
        p.insert(i, self.nodes_of(a))
        return U

    def do_contains(self, n):
        while isinstance(n, Node):
            if n is self:
                return True
            n = n.parent
        return False

    def do_getRootNode(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    @property
    def js_isConnected(self):
        return self.do_getRootNode() is self.page.document

    @property
    def js_ownerDocument(self):
        return self.page.document

    @property
    def js_parentNode(self):
        return self.parent

    @property
    def js_parentElement(self):
        return self.parent if isinstance(self.parent, Element) else None

    def sibling(self, d, elements):
        if self.parent is None:
            return None
        k = self.parent.kids.index(self)
        xs = self.parent.kids[k + 1:] if d > 0 else self.parent.kids[:k][::-1]
        return next((x for x in xs if not elements or isinstance(x, Element)), None)

    @property
    def js_nextSibling(self):
        return self.sibling(1, False)

    @property
    def js_previousSibling(self):
        return self.sibling(-1, False)

    @property
    def js_nextElementSibling(self):
        return self.sibling(1, True)

    @property
    def js_previousElementSibling(self):
        return self.sibling(-1, True)

    def instance_of(self, name):
        return name in ("Node", "EventTarget") or name == "Element" and isinstance(self, Element) or name == "HTMLElement" and isinstance(self, Element)


class Alt:
    """One of two texts, depending on a condition; decided when it is read."""

    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def pick(self):
        x = self.a if bool(self.cond) else self.b
        return x.pick() if isinstance(x, Alt) else x

    def equals(self, t):
        """Condition under which the text is t."""
        def side(x):
            return x.equals(t) if isinstance(x, Alt) else x == t
        return S.either(S.both(self.cond, side(self.a)), S.both(S.no(self.cond), side(self.b)))


class Text(Node):
    known = NAMES["Text"]
    klass = "Text"
    js_nodeType = 3
    js_nodeName = "#text"
    kids = ()

    def __init__(self, page, data):
        super().__init__(page)
        self.data = data

    @property
    def data(self):
        if isinstance(self.raw, Alt):
            self.raw = self.raw.pick()
        return self.raw

    @data.setter
    def data(self, v):
        self.raw = v

    def text(self):
        return self.data

    @property
    def js_textContent(self):
        return self.data

    def set_textContent(self, v):
        self.data = "" if v is None else to_str(v)

    js_data = js_nodeValue = js_textContent
    set_data = set_nodeValue = set_textContent

    def do_cloneNode(self, deep=False):
        return Text(self.page, self.data)


class Container(Node):
    """Element, document or fragment: has children."""

    def __init__(self, page):
        super().__init__(page)
        self.kids = []

    def elements(self):
        return [k for k in self.kids if isinstance(k, Element)]

    def descendants(self):
        for k in self.kids:
            if isinstance(k, Element):
                yield k
                yield from k.descendants()

    def text(self):
        return "".join(k.text() for k in self.kids)

    js_children = property(lambda self: JSArray(self.elements(), COLLECTION))
    js_childNodes = property(lambda self: JSArray(self.kids, NODE_LIST))
    js_childElementCount = property(lambda self: len(self.elements()))
    js_firstChild = property(lambda self: self.kids[0] if self.kids else None)
    js_lastChild = property(lambda self: self.kids[-1] if self.kids else None)
    js_firstElementChild = property(lambda self: next(iter(self.elements()), None))
    js_lastElementChild = property(lambda self: next(reversed(self.elements()), None))

    def do_hasChildNodes(self):
        return bool(self.kids)

    def selector(self, text):
        try:
            return S.parse(to_str(text))
        except S.SelectorError:
            raise error("SyntaxError", f"'{text}' is not a valid selector.")

    def query(self, text):
        sels = self.selector(text)
        scope = self if isinstance(self, Element) else self.page.root
        for e in self.descendants():
            try:
                m = S.match_list(e, sels, scope)
            except S.SelectorError as x:
                raise Unsupported(f"selector {x}")
            if m is not False and (m is True or bool(m)):
                yield e

    def do_querySelectorAll(self, text):
        return JSArray(self.query(text), NODE_LIST)

    def do_querySelector(self, text):
        return next(self.query(text), None)

    def do_getElementsByClassName(self, name):
        return JSArray(self.query("".join("." + x for x in to_str(name).split())), COLLECTION)

    def do_getElementsByTagName(self, name):
        return JSArray(self.query(to_str(name)), COLLECTION)

    def do_getElementById(self, i):
        return next((e for e in self.descendants() if e.attrs.get("id") == to_str(i)), None)


class ClassList(Host):
    known = NAMES["ClassList"]
    klass = "DOMTokenList"

    def __init__(self, el):
        super().__init__()
        self.el = el

    def names(self):
        return [k for k, v in self.el.classes.items() if v is True or v is not False and bool(v)]

    def items_(self):
        return self.names()

    def get(self, k):
        if k.isdigit():
            xs = self.names()
            return xs[int(k)] if int(k) < len(xs) else U
        return super().get(k)

    js_length = property(lambda self: len(self.names()))
    js_value = property(lambda self: " ".join(self.names()))

    def token(self, t):
        t = to_str(t)
        if not t or re.search(r"\s", t):
            raise error("InvalidCharacterError", f"The token provided ('{t}') is not valid.")
        return t

    def do_contains(self, t):
        return self.el.classes.get(to_str(t), False)

    def do_add(self, *ts):
        for t in ts:
            self.el.classes[self.token(t)] = True
        return U

    def do_remove(self, *ts):
        for t in ts:
            self.el.classes.pop(self.token(t), None)
        return U

    def do_toggle(self, t, force=U):
        t = self.token(t)
        if force is U:
            have = self.el.classes.get(t, False)
            force = S.no(have)
        if isinstance(force, SymBool):
            self.el.classes[t] = force
            return force
        if truthy(force):
            self.el.classes[t] = True
            return True
        self.el.classes.pop(t, None)
        return False

    def do_replace(self, a, b):
        if not truthy(self.el.classes.get(self.token(a), False)):
            return False
        self.el.classes = {(b if k == a else k): v for k, v in self.el.classes.items()}
        return True

    def do_item(self, i):
        xs = self.names()
        return xs[int(i)] if int(i) < len(xs) else None

    def do_forEach(self, f, this=U):
        for i, x in enumerate(self.names()):
            call(f, this, [x, i, self])
        return U

    def do_toString(self):
        return self.js_value

    def do_values(self):
        return JSArray(self.names())


class Style(Host):
    klass = "CSSStyleDeclaration"

    def __init__(self, el):
        super().__init__()
        self.el, self.d = el, {}

    @staticmethod
    def name(k):
        return re.sub(r"[A-Z]", lambda m: "-" + m.group(0).lower(), k)

    def get(self, k):
        if k in ("setProperty", "getPropertyValue", "removeProperty"):
            return super().get(k)
        if k == "cssText":
            return " ".join(f"{a}: {b};" for a, b in self.d.items())
        return self.d.get(self.name(k), "")

    def set(self, k, v):
        if k == "cssText":
            self.d = {}
            for part in to_str(v).split(";"):
                if ":" in part:
                    a, b = part.split(":", 1)
                    self.put(a.strip(), b.strip())
            return
        self.put(self.name(k), v)

    def put(self, k, v):
        v = "" if v is None else to_str(v) if not isinstance(v, SymNum) else v
        if v == "":
            self.d.pop(k, None)
        else:
            self.d[k] = v

    def do_setProperty(self, k, v, prio=U):
        self.put(to_str(k), v)
        return U

    def do_getPropertyValue(self, k):
        return self.d.get(to_str(k), "")

    def do_removeProperty(self, k):
        return self.d.pop(to_str(k), "")


class Dataset(Host):
    def __init__(self, el):
        super().__init__()
        self.el = el

    def get(self, k):
        return self.el.attrs.get("data-" + Style.name(k), U)

    def set(self, k, v):
        self.el.attrs["data-" + Style.name(k)] = to_str(v)

    def has(self, k):
        return "data-" + Style.name(k) in self.el.attrs

    def delete(self, k):
        self.el.attrs.pop("data-" + Style.name(k), None)


REFLECTED = {"id": "id", "title": "title", "href": "href", "src": "src", "type": "type", "name": "name", "rel": "rel", "lang": "lang", "alt": "alt"}


class Element(Container):
    known = NAMES["Element"]
    klass = "HTMLElement"
    js_nodeType = 1

    def __init__(self, page, tag, attrs=None):
        super().__init__(page)
        self.tag = tag
        self.attrs = {}
        self.classes = {}
        self.style = Style(self)
        for k, v in (attrs or {}).items():
            self.set_attr(k, v)

    # attributes
    def set_attr(self, k, v):
        k = k.lower()
        if k == "class":
            self.classes = dict.fromkeys(v.split(), True)
        elif k == "style":
            self.style.set("cssText", v)
        else:
            self.attrs[k] = v

    def class_name(self):
        return " ".join(k for k, v in self.classes.items() if v is True or v is not False and bool(v))

    def attr(self, k):
        k = k.lower()
        if k == "class":
            return self.class_name() if self.classes else None
        if k == "style":
            return self.style.get("cssText") if self.style.d else None
        return self.attrs.get(k)

    def do_getAttribute(self, k):
        return self.attr(to_str(k))

    def do_setAttribute(self, k, v):
        self.set_attr(to_str(k), v if isinstance(v, SymNum) else to_str(v))
        return U

    def do_removeAttribute(self, k):
        k = to_str(k).lower()
        if k == "class":
            self.classes = {}
        elif k == "style":
            self.style.d = {}
        else:
            self.attrs.pop(k, None)
        return U

    def do_hasAttribute(self, k):
        return self.attr(to_str(k)) is not None

    def do_toggleAttribute(self, k, force=U):
        on = not self.do_hasAttribute(k) if force is U else truthy(force)
        self.do_setAttribute(k, "") if on else self.do_removeAttribute(k)
        return on

    def get(self, k):
        if k in REFLECTED:
            return self.attrs.get(k, "")
        if k == "style":
            return self.style
        if k == "classList":
            return ClassList(self)
        if k == "dataset":
            return Dataset(self)
        if k == "className":
            return self.class_name()
        return super().get(k)

    def set(self, k, v):
        if k in REFLECTED:
            self.attrs[k] = to_str(v)
        elif k == "className":
            self.set_attr("class", to_str(v))
        elif k == "style":
            self.style.set("cssText", v)
        elif k == "classList":
            self.set_attr("class", to_str(v))
        else:
            super().set(k, v)

    js_tagName = property(lambda self: self.tag.upper())
    js_nodeName = js_tagName
    js_localName = property(lambda self: self.tag)
    js_hidden = property(lambda self: "hidden" in self.attrs)

    def set_hidden(self, v):
        self.do_toggleAttribute("hidden", truthy(v))

    js_tabIndex = property(lambda self: int(self.attrs["tabindex"]) if re.fullmatch(r"-?\d+", self.attrs.get("tabindex", "")) else 0 if self.tag in ("a", "button", "input") else -1)

    def set_tabIndex(self, v):
        self.attrs["tabindex"] = to_str(v)

    js_disabled = property(lambda self: "disabled" in self.attrs)

    # content
    js_textContent = property(lambda self: self.text())
    js_innerText = js_textContent

    def set_textContent(self, v):
        for c in list(self.kids):
            c.detach()
        v = "" if v is None else to_str(v)
        if v:
            self.insert(0, [Text(self.page, v)])

    set_innerText = set_textContent

    def inner(self):
        return "".join(serialize(k) for k in self.kids)

    js_innerHTML = property(lambda self: self.inner())
    js_outerHTML = property(lambda self: serialize(self))

    def set_innerHTML(self, v):
        for c in list(self.kids):
            c.detach()
        self.insert(0, parse_nodes(self.page, "" if v is None else to_str(v)))

    def do_insertAdjacentHTML(self, where, text):
        return self.adjacent(where, parse_nodes(self.page, to_str(text)))

    def do_insertAdjacentElement(self, where, el):
        self.adjacent(where, [el])
        return el

    def adjacent(self, where, nodes):
        w = to_str(where).lower()
        if w == "beforebegin":
            self.parent.insert(self.parent.kids.index(self), nodes)
        elif w == "afterbegin":
            self.insert(0, nodes)
        elif w == "beforeend":
            self.insert(len(self.kids), nodes)
        else:
            self.parent.insert(self.parent.kids.index(self) + 1, nodes)
        return U

    def do_cloneNode(self, deep=False):
        e = Element(self.page, self.tag)
        e.attrs, e.classes = dict(self.attrs), dict(self.classes)
        e.style.d = dict(self.style.d)
        if truthy(deep):
            e.insert(0, [k.do_cloneNode(True) for k in self.kids])
        return e

    # selectors
    def state(self, name):
        if name == "focus":
            return self.page.active is self
        if name == "focus-within":
            return self.do_contains(self.page.active)
        if name == "hover":
            return self.page.hovered is not None and self.do_contains(self.page.hovered)
        return False

    def do_matches(self, text):
        return S.match_list(self, self.selector(text), self)

    def do_closest(self, text):
        sels = self.selector(text)
        e = self
        while isinstance(e, Element):
            m = S.match_list(e, sels, self)
            if m is not False and (m is True or bool(m)):
                return e
            e = e.parent
        return None

    # interaction
    def do_click(self):
        self.page.fire(self, "click")
        return U

    def focusable(self):
        return "tabindex" in self.attrs or self.tag == "a" and "href" in self.attrs or self.tag in ("button", "input", "textarea", "select") and "disabled" not in self.attrs

    def do_focus(self, *a):
        if self.focusable() and self.page.active is not self and self.js_isConnected:
            if self.page.displayed(self):
                self.page.active = self
                self.page.fire(self, "focus", bubbles=False)
        return U

    def do_blur(self):
        if self.page.active is self:
            self.page.active = self.page.body
        return U

    def do_getBoundingClientRect(self):
        top, height = self.page.geometry(self)
        return JSObject({"top": top, "bottom": add(top, height), "height": height, "y": top, "left": 0, "x": 0, "right": 100, "width": 100})

    js_offsetHeight = property(lambda self: self.page.geometry(self)[1])
    js_clientHeight = js_offsetHeight
    js_offsetTop = property(lambda self: self.page.geometry(self)[0])
    js_offsetParent = property(lambda self: self.js_parentElement)

    def do_scrollIntoView(self, *a):
        self.page.scrolls.append(("into", self))
        return U

    def do_animate(self, *a):
        return JSObject()


def add(a, b):
    from .interp import arith
    return arith("+", a, b)


class Document(Container):
    known = NAMES["Document"]
    klass = "HTMLDocument"
    js_nodeType = 9
    js_nodeName = "#document"

    js_documentElement = property(lambda self: self.page.root)
    js_body = property(lambda self: self.page.body)
    js_head = property(lambda self: self.page.head)
    js_activeElement = property(lambda self: self.page.active)
    js_defaultView = property(lambda self: self.page.window)
    js_location = property(lambda self: self.page.location)
    js_readyState = "complete"
    js_hidden = False

    def do_createElement(self, tag, *a):
        return Element(self.page, to_str(tag).lower())

    def do_createElementNS(self, ns, tag, *a):
        return Element(self.page, to_str(tag))

    def do_createTextNode(self, s):
        return Text(self.page, to_str(s))

    def do_createDocumentFragment(self):
        return Fragment(self.page)

    js_title = property(lambda self: next((e.text() for e in self.descendants() if e.tag == "title"), ""))


class Fragment(Container):
    js_nodeType = 11
    js_nodeName = "#document-fragment"


class Event(Host):
    known = NAMES["Event"]
    klass = "Event"

    def __init__(self, page, kind, props=None, bubbles=True):
        super().__init__(dict(props or {}))
        self.page, self.js_type, self.js_bubbles = page, kind, bubbles
        self.js_target = self.js_currentTarget = None
        self.stopped = self.now = self.prevented = False

    js_defaultPrevented = property(lambda self: self.prevented)

    def do_preventDefault(self):
        self.prevented = True
        return U

    def do_stopPropagation(self):
        self.stopped = True
        return U

    def do_stopImmediatePropagation(self):
        self.stopped = self.now = True
        return U

    def do_composedPath(self):
        return JSArray(self.path)

    def dispatch(self, target):
        self.js_target = target
        self.path, n = [], target
        while n is not None:
            self.path.append(n)
            n = n.parent
        if self.path[-1] is self.page.document:
            self.path.append(self.page.window)
        steps = [(n, True) for n in reversed(self.path)] + [(n, False) for n in (self.path if self.js_bubbles else self.path[:1])]
        for n, capture in steps:
            if self.stopped:
                break
            self.js_currentTarget = n
            for entry in list(n.listeners):
                kind, f, once, cap = entry
                if kind != self.js_type or cap != capture or entry not in n.listeners or self.now:
                    continue
                if once:
                    n.listeners.remove(entry)
                self.page.interp.depth = 0

                def invoke(f=f, n=n):
                    if isinstance(f, JSFunction):
                        call(f, n, [self])
                    else:
                        call(f.get("handleEvent"), f, [self])
                self.page.interp.loop.guarded(invoke)
            if not capture:
                h = n.get("on" + self.js_type) if isinstance(n, JSObject) else U
                if isinstance(h, JSFunction):
                    self.page.interp.loop.guarded(lambda: call(h, n, [self]))


class Window(Node):
    known = NAMES["Window"]
    klass = "Window"
    kids = ()

    def get(self, k):
        if k in self.page.interp.globals.d:
            return self.page.interp.globals.d[k]
        return super().get(k)

    def set(self, k, v):
        self.page.interp.globals.d[k] = v

    js_innerHeight = property(lambda self: self.page.viewport)
    js_innerWidth = 1000
    js_scrollY = js_pageYOffset = 0
    js_document = property(lambda self: self.page.document)
    js_location = property(lambda self: self.page.location)

    def do_scrollBy(self, *a):
        top = a[0].get("top") if a and isinstance(a[0], JSObject) else a[1] if len(a) > 1 else 0
        self.page.scrolls.append(("by", top))
        return U

    def do_scrollTo(self, *a):
        top = a[0].get("top") if a and isinstance(a[0], JSObject) else a[1] if len(a) > 1 else 0
        self.page.scrolls.append(("to", top))
        return U

    do_scroll = do_scrollTo

    def do_getComputedStyle(self, el, pseudo=U):
        return self.page.computed(el)

    def do_matchMedia(self, q):
        return JSObject({"matches": False, "addEventListener": JSFunction("", lambda t, a: U), "media": to_str(q)})

    def do_getSelection(self):
        return JSObject({"toString": JSFunction("toString", lambda t, a: "")})


class Computed(Host):
    def __init__(self, page, el):
        super().__init__()
        self.page, self.el = page, el

    def get(self, k):
        if k == "getPropertyValue":
            return JSFunction(k, lambda t, a: self.get(to_str(a[0])))
        if k == "display":
            return self.page.display(self.el)
        if k in ("visibility",):
            return "visible"
        raise Unsupported(f"computed style {k}")


class Builder(HTMLParser):
    def __init__(self, page):
        super().__init__(convert_charrefs=True)
        self.page, self.top = page, []
        self.stack = []

    def put(self, n):
        if self.stack:
            n.parent = self.stack[-1]
            self.stack[-1].kids.append(n)
        else:
            self.top.append(n)

    def handle_starttag(self, tag, attrs, closed=False):
        d = {}
        for k, v in attrs:
            d.setdefault(k, "" if v is None else v)
        e = Element(self.page, tag, d)
        self.put(e)
        if tag not in VOID and not closed:
            self.stack.append(e)

    def handle_startendtag(self, tag, attrs):
        svg = tag == "svg" or any(e.tag == "svg" for e in self.stack)
        self.handle_starttag(tag, attrs, closed=svg)

    def handle_endtag(self, tag):
        for i in reversed(range(len(self.stack))):
            if self.stack[i].tag == tag:
                del self.stack[i:]
                break

    def handle_data(self, d):
        self.put(Text(self.page, d))


def parse_nodes(page, text):
    b = Builder(page)
    b.feed(text)
    b.close()
    return b.top


def serialize(n):
    if isinstance(n, Text):
        return htmllib.escape(n.data, quote=False)
    at = "".join(f' {k}="{htmllib.escape(to_str(v))}"' for k, v in attributes(n))
    if n.tag in VOID:
        return f"<{n.tag}{at}>"
    return f"<{n.tag}{at}>{n.inner()}</{n.tag}>"


def attributes(n):
    out = []
    if n.classes:
        out.append(("class", n.class_name()))
    if n.style.d:
        out.append(("style", n.style.get("cssText")))
    return out + list(n.attrs.items())


class Location(Host):
    known = NAMES["Location"]
    def __init__(self, href):
        super().__init__()
        self.js_href = href

    js_hash = property(lambda self: "#" + self.js_href.split("#", 1)[1] if "#" in self.js_href else "")
    js_pathname = property(lambda self: re.sub(r"^\w+://[^/]*", "", re.split(r"[?#]", self.js_href)[0]) or "/")
    js_search = property(lambda self: (re.search(r"\?[^#]*", self.js_href) or [""])[0])
    js_origin = property(lambda self: (re.match(r"^\w+://[^/]*", self.js_href) or ["null"])[0])
    js_host = property(lambda self: self.js_origin.split("//")[-1])
    js_protocol = property(lambda self: self.js_href.split("//")[0])

    def do_toString(self):
        return self.js_href


class Page:
    """The browser: one page, its scripts, and what the user does with it."""

    symbolic = True

    def __init__(self, html, static, url="http://localhost/index.html", clipboard=True, scripts=lambda src: True, css=""):
        self.static, self.url, self.clip_ok, self.scripts = static, url, clipboard, scripts
        self.interp = Interp(self.resolve)
        self.active = self.hovered = None
        self.scrolls, self.clipboard, self.geo = [], [], {}
        self.viewport = 800
        self.display_rules = S.rules(css, "display")
        self.document, self.window = Document(self), Window(self)
        self.location = Location(url)
        self.root = Element(self, "html")
        self.document.kids.append(self.root)
        self.root.parent = self.document
        self.head, self.body = Element(self, "head"), Element(self, "body")
        self.root.insert(0, [self.head, self.body])
        self.body.insert(0, parse_nodes(self, html))
        self.active = self.body
        self.observers = []
        g = self.interp.globals.d
        g.update(window=self.window, document=self.document, self=self.window, globalThis=self.window, location=self.location)
        for name in ("getComputedStyle", "scrollBy", "scrollTo", "matchMedia", "getSelection", "addEventListener", "removeEventListener", "dispatchEvent"):
            m = getattr(self.window, "do_" + name)
            g[name] = JSFunction(name, lambda this, a, m=m: m(*a))
        clip = JSObject({"writeText": JSFunction("writeText", self.write_text)})
        g["navigator"] = JSObject({"clipboard": clip, "userAgent": "symbolic", "platform": ""})
        for name in ("Element", "HTMLElement", "Node", "Document", "EventTarget"):
            g[name] = JSFunction(name, lambda this, a: U)

        def observer(a):
            o = JSObject()
            els = []

            def obs(this, b):
                els.append(b[0])
                return U
            o.props["observe"] = JSFunction("observe", obs)
            o.props["disconnect"] = JSFunction("disconnect", lambda this, b: els.clear() or U)
            o.props["unobserve"] = JSFunction("unobserve", lambda this, b: b[0] in els and els.remove(b[0]) or U)
            self.observers.append((a[0], els, o))
            return o
        g["ResizeObserver"] = JSFunction("ResizeObserver", lambda this, a: U, observer)

        def ev(a):
            opts = a[1] if len(a) > 1 and isinstance(a[1], JSObject) else JSObject()
            return Event(self, to_str(a[0]), {k: opts.get(k) for k in opts.keys() if k != "bubbles"}, truthy(opts.get("bubbles")))
        for name in ("Event", "MouseEvent", "KeyboardEvent", "CustomEvent"):
            g[name] = JSFunction(name, lambda this, a: U, ev)

    @property
    def errors(self):
        return self.interp.loop.errors

    def resolve(self, spec):
        if spec.startswith("/static/"):
            return os.path.join(self.static, spec[len("/static/"):])
        if spec.startswith("./"):
            return os.path.join(self.static, spec[2:])
        return os.path.join(self.static, os.path.basename(spec))

    def write_text(self, this, a):
        p = Promise(self.interp.loop)
        if self.clip_ok is True or self.clip_ok is not False and bool(self.clip_ok):
            self.clipboard.append(to_str(a[0]))
            p.resolve(U)
        else:
            p.reject(JSObject({"name": "NotAllowedError", "message": "no clipboard", "@@error": "Error"}))
        return p

    def inserted(self, el):
        """Scripts that are inserted get loaded, or fail to."""
        for e in [el, *el.descendants()]:
            if e.tag == "script" and e.attrs.get("src") and e.js_isConnected and not getattr(e, "loaded", False):
                e.loaded = True
                ok = self.scripts(e.attrs["src"])

                def done(e=e, ok=ok):
                    self.fire(e, "load" if ok is True or ok is not False and bool(ok) else "error", bubbles=False)
                self.interp.loop.tasks.append(done)

    def removed(self, n):
        if isinstance(self.active, Node) and n is not self.active and isinstance(n, Container) and n.do_contains(self.active) or n is self.active:
            self.active = self.body

    # style
    def display(self, el):
        inline = el.style.d.get("display")
        result = None
        for parts, value, imp, _, _, _ in self.display_rules:
            if inline is not None and not imp:
                return inline
            m = S.match_complex(el, parts, el)
            if m is not False and (m is True or bool(m)):
                return value
        if inline is not None:
            return inline
        if "hidden" in el.attrs or el.tag in ("script", "style", "head", "template", "title", "meta", "link"):
            return "none"
        return "inline" if el.tag in INLINE else "list-item" if el.tag == "li" else "block"

    def undisplayed(self, el):
        """Condition under which display is none for this element itself; forks nothing."""
        inline = el.style.d.get("display")
        none = inline == "none" if inline is not None else (
            "hidden" in el.attrs or el.tag in ("script", "style", "head", "template", "title", "meta", "link"))
        for parts, value, imp, _, _, _ in reversed(self.display_rules):
            if inline is not None and not imp:
                continue
            m = S.match_complex(el, parts, el)
            if m is not False:
                none = S.either(S.both(m, value == "none"), S.both(S.no(m), none))
        return none

    def shown(self, el):
        """Condition under which the element is displayed; forks nothing."""
        r = True
        while isinstance(el, Element):
            r = S.both(r, S.no(self.undisplayed(el)))
            el = el.parent
        return r

    def computed(self, el):
        if not isinstance(el, Element):
            raise error("TypeError", "parameter 1 is not of type 'Element'.")
        return Computed(self, el)

    def displayed(self, el):
        while isinstance(el, Element):
            if self.display(el) == "none":
                return False
            el = el.parent
        return True

    def geometry(self, el):
        g = self.geo.get(id(el))
        if g is None:
            return (0, 0)
        return g

    # what the user does
    def fire(self, el, kind, props=None, bubbles=True):
        ev = Event(self, kind, props, bubbles)
        ev.dispatch(el)
        self.interp.loop.drain()
        return ev

    def click(self, el):
        self.fire(el, "click", {"button": 0})

    def press(self, selector):
        """Click the first element that matches, if any."""
        el = self.document.do_querySelector(selector)
        if el is not None:
            self.click(el)

    def key(self, k):
        codes = {"Enter": 13, "Escape": 27, "ArrowUp": 38, "ArrowDown": 40, "ArrowLeft": 37, "ArrowRight": 39, " ": 32, "Tab": 9}
        props = {"key": k, "keyCode": codes.get(k, ord(k[0].upper())), "code": k, "shiftKey": len(k) == 1 and k.isupper(),
                 "ctrlKey": False, "metaKey": False, "altKey": False, "repeat": False}
        self.fire(self.active or self.body, "keydown", props)
        self.fire(self.active or self.body, "keyup", props)

    def import_module(self, spec):
        return self.interp.namespace(spec)

    def call_export(self, spec, name, *args):
        try:
            r = call(self.import_module(spec).get(name), U, list(args))
        except JSThrow as t:
            self.errors.append(describe(t.value))
            return None
        self.interp.loop.drain()
        return r


    def set_class(self, el, name, cond):
        if cond is False:
            el.classes.pop(name, None)
        else:
            el.classes[name] = cond

    def set_style(self, el, name, value):
        el.style.set(name, value)

    def set_active(self, el):
        self.active = el

    def clear(self):
        """Forget what was recorded so far."""
        self.errors.clear()
        self.scrolls.clear()
        self.clipboard.clear()

    def timers(self):
        self.interp.loop.fire_timers()

    def timer(self):
        self.interp.loop.fire_timers(1)

    def resize(self):
        for f, els, o in self.observers:
            es = [JSObject({"target": e, "contentRect": JSObject({"height": self.geometry(e)[1]})}) for e in els]
            if es:
                self.interp.loop.guarded(lambda: call(f, U, [JSArray(es), o]))
        self.interp.loop.drain()

    def onload(self):
        return self.call_export("/static/onload.js", "onload")

    def settle(self):
        pass


class Unmodelled(Exception):
    """The scripts use a part of the browser that the document model in node does not have."""


class NativePage(Page):
    """The same page in node, running the real scripts; actions are recorded and run by settle()."""

    symbolic = False

    def __init__(self, html, static, **kw):
        self.failing = kw.pop("failing", [])
        self.css = kw.get("css", "")
        super().__init__(html, static, **kw)
        self.all = [self.root, *self.root.descendants()]
        self.index = {id(e): i for i, e in enumerate(self.all)}
        self.start = self.dump(self.root)
        self.actions, self.native_errors = [], []

    errors = property(lambda self: self.native_errors)

    def dump(self, n):
        if isinstance(n, Text):
            return n.data
        return {"i": self.index[id(n)], "tag": n.tag, "attrs": [[k, to_str(v)] for k, v in attributes(n)], "kids": [self.dump(k) for k in n.kids]}

    def call_export(self, spec, name, *args):
        self.actions.append(["export", spec, name, ["document" if a is self.document else a for a in args]])

    def fire(self, el, kind, props=None, bubbles=True):
        self.actions.append(["fire", "window" if el is self.window else self.index[id(el)], kind, props or {}, bubbles])

    def press(self, selector):
        self.actions.append(["press", selector])

    def key(self, k):
        self.actions.append(["key", k])

    def set_class(self, el, name, cond):
        super().set_class(el, name, bool(cond))
        self.actions.append(["class", self.index[id(el)], name, bool(cond)])

    def set_style(self, el, name, value):
        super().set_style(el, name, value)
        self.actions.append(["style", self.index[id(el)], name, value])

    def set_active(self, el):
        self.active = el
        self.actions.append(["active", self.index[id(el)]])

    def clear(self):
        self.actions.append(["clear"])

    def timers(self):
        self.actions.append(["timers"])

    def timer(self):
        self.actions.append(["timer"])

    def resize(self):
        self.actions.append(["resize"])

    def settle(self):
        import subprocess

        display = [[sel, v, imp] for _, v, imp, _, _, sel in self.display_rules]
        job = {"tree": self.start, "names": {k: sorted(v) for k, v in NAMES.items()}, "staticDir": self.static, "display": display, "url": self.url, "clipboard": bool(self.clip_ok),
               "failing": self.failing, "viewport": self.viewport, "actions": self.actions,
               "geometry": {self.index[i]: list(g) for i, g in self.geo.items()}}
        r = subprocess.run(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "native.mjs")],
                           input=json.dumps(job), capture_output=True, text=True, timeout=60)
        if r.returncode:
            raise RuntimeError("node: " + r.stderr[-600:])
        out = json.loads(r.stdout)
        if out["unmodelled"]:
            raise Unmodelled(out["unmodelled"])
        self.native_errors[:] = out["errors"]
        self.scrolls[:] = [tuple(s) for s in out["scrolls"]]
        self.clipboard[:] = out["copied"]
        self.load(out["tree"])
        self.active = self.all[out["active"]] if out["active"] >= 0 else self.body

    def load(self, t):
        if isinstance(t, str):
            return Text(self, t)
        e = self.all[t["i"]] if t["i"] >= 0 else Element(self, t["tag"])
        e.attrs = dict(map(tuple, t["attrs"]))
        e.classes = dict.fromkeys(t["classes"], True)
        e.style.d = dict(map(tuple, t["style"]))
        e.kids = [self.load(k) for k in t["kids"]]
        for k in e.kids:
            k.parent = e
        return e
