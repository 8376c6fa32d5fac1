"""A JavaScript interpreter for symbolic execution.

The syntax tree of the real source (parsed by acorn on every run) is compiled to Python
closures.  Values may be symbolic (SymBool, SymNum); conditions on them fork the path by
asking the solver, exactly as in the Python part of the code under test.

Asynchronous functions run to completion when called; 'await' on a pending promise first
runs the tasks that are due (see Loop).
"""

import json
import math
import os
import re
import subprocess

from .sym import SymBool, SymInt


class Undefined:
    __slots__ = ()

    def __repr__(self):
        return "undefined"

    def __bool__(self):
        return False


U = Undefined()
HOLE = object()


class Unsupported(BaseException):
    """Something this interpreter does not know: the path ends without a verdict."""


class JSThrow(Exception):
    def __init__(self, value):
        super().__init__(describe(value))
        self.value = value


class _Break(Exception):
    def __init__(self, label):
        self.label = label


class _Continue(Exception):
    def __init__(self, label):
        self.label = label


class _Return(Exception):
    def __init__(self, value):
        self.value = value


# -- symbolic numbers ------------------------------------------------------------------
class SymNum:
    """A real number; z3 arithmetic."""

    def __init__(self, e):
        self.e = e

    @staticmethod
    def of(v):
        import z3

        if isinstance(v, SymNum):
            return v.e
        if isinstance(v, SymInt):
            return z3.ToReal(v.e)
        if isinstance(v, bool):
            return z3.RealVal(int(v))
        if isinstance(v, float):
            from fractions import Fraction

            return z3.RealVal(str(Fraction(v)))
        return z3.RealVal(v)

    def __bool__(self):
        return bool(SymBool(self.e != 0))


def symbolic(*vs):
    return any(isinstance(v, (SymNum, SymInt)) for v in vs)


# -- values ----------------------------------------------------------------------------
class JSObject:
    klass = "Object"

    def __init__(self, props=None, proto=None):
        self.props = props if props is not None else {}
        self.proto = proto

    def find(self, k):
        o = self
        while isinstance(o, JSObject):
            if k in o.props:
                return o.props[k]
            o = o.proto
        return HOLE

    def get(self, k):
        v = self.find(k)
        if v is HOLE:
            m = OBJECT_METHODS.get(k)
            return JSFunction(k, m) if m else U
        if isinstance(v, Accessor):
            return call(v.getter, self, []) if v.getter else U
        return v

    def set(self, k, v):
        old = self.find(k)
        if isinstance(old, Accessor):
            if old.setter:
                call(old.setter, self, [v])
            return
        self.props[k] = v

    def delete(self, k):
        self.props.pop(k, None)

    def keys(self):
        ks = [k for k in self.props if not k.startswith("@@")]
        nums = sorted((k for k in ks if k.isdigit()), key=int)
        return nums + [k for k in ks if not k.isdigit()]

    def has(self, k):
        return self.find(k) is not HOLE


class Accessor:
    def __init__(self, getter=None, setter=None):
        self.getter, self.setter = getter, setter


class JSArray(JSObject):
    klass = "Array"

    only = None  # the methods of lists that are not arrays

    def __init__(self, a=(), only=None):
        super().__init__()
        self.a = list(a)
        if only:
            self.only = only

    def get(self, k):
        if k == "length":
            return len(self.a)
        if k.isdigit():
            i = int(k)
            return self.a[i] if i < len(self.a) else U
        if self.only is not None and k == "item":
            return JSFunction(k, lambda this, a: self.get(str(int(to_num(a[0])))) if int(to_num(a[0])) < len(self.a) else None)
        if k in ARRAY and (self.only is None or k in self.only):
            return JSFunction(k, ARRAY[k])
        return super().get(k)

    def set(self, k, v):
        if k == "length":
            n = int(to_num(v))
            del self.a[n:]
            self.a += [U] * (n - len(self.a))
        elif k.isdigit():
            i = int(k)
            self.a += [U] * (i + 1 - len(self.a))
            self.a[i] = v
        else:
            super().set(k, v)

    def keys(self):
        return [str(i) for i in range(len(self.a))] + super().keys()

    def has(self, k):
        return int(k) < len(self.a) if k.isdigit() else super().has(k)


class JSFunction(JSObject):
    klass = "Function"

    def __init__(self, name, fn, construct=None):
        super().__init__()
        self.name, self.fn, self.construct = name, fn, construct

    def get(self, k):
        if k in self.props:
            return super().get(k)
        if k == "name":
            return self.name
        if k == "prototype":
            p = JSObject({"constructor": self})
            self.props["prototype"] = p
            return p
        if k == "call":
            return JSFunction("call", lambda this, a: call(self, a[0] if a else U, a[1:]))
        if k == "apply":
            return JSFunction("apply", lambda this, a: call(self, a[0] if a else U,
                                                            iterate(a[1]) if len(a) > 1 and a[1] is not U and a[1] is not None else []))
        if k == "bind":
            def bind(this, a):
                bound, pre = (a[0] if a else U), list(a[1:])
                return JSFunction("bound", lambda _, b: call(self, bound, pre + list(b)))
            return JSFunction("bind", bind)
        return super().get(k)


HARMLESS = {"async", "defer", "crossOrigin", "integrity", "referrerPolicy", "fetchPriority", "charset", "role"}


class Host(JSObject):
    """Base of host objects: Python attributes js_NAME are properties, do_NAME methods."""

    klass = "Host"
    known = frozenset()  # names that browsers know: where they are not modelled, the path is left open

    def get(self, k):
        p = getattr(self, "js_" + k, HOLE) if k.isidentifier() else HOLE
        if p is not HOLE:
            return p() if callable(p) else p
        m = getattr(self, "do_" + k, None) if k.isidentifier() else None
        if m is not None:
            return JSFunction(k, lambda this, a: m(*a))
        if k in self.known and not super().has(k):
            raise Unsupported(f"DOM: {self.klass}.{k}")
        return super().get(k)

    def set(self, k, v):
        m = getattr(self, "set_" + k, None) if k.isidentifier() else None
        if m is not None:
            m(v)
        elif hasattr(self, "js_" + k):
            pass  # read only
        elif k in self.known and k not in HARMLESS and not k.startswith("aria") and not super().has(k):
            raise Unsupported(f"DOM: setting {self.klass}.{k}")
        else:
            super().set(k, v)

    def has(self, k):
        return hasattr(self, "js_" + k) or hasattr(self, "do_" + k) or super().has(k)


class JSRegex(JSObject):
    klass = "RegExp"

    def __init__(self, source, flags):
        super().__init__({"lastIndex": 0})
        self.source, self.flags = source, flags
        f = (re.I if "i" in flags else 0) | (re.M if "m" in flags else 0) | (re.S if "s" in flags else 0)
        s = re.sub(r"\(\?<(?![=!])", "(?P<", source)
        s = re.sub(r"\\/", "/", s).replace("[^]", r"[\s\S]").replace("$", r"(?!\n)$") if "m" not in flags else s
        try:
            self.re = re.compile(s, f)
        except re.error as e:
            raise Unsupported(f"regular expression {source}: {e}")

    def get(self, k):
        if k in ("source", "flags"):
            return getattr(self, k)
        if k == "global":
            return "g" in self.flags
        if k == "test":
            return JSFunction(k, lambda this, a: self.exec(to_str(a[0])) is not None)
        if k == "exec":
            return JSFunction(k, lambda this, a: self.exec(to_str(a[0])))
        return super().get(k)

    def exec(self, s):
        start = int(self.props["lastIndex"]) if set(self.flags) & set("gy") else 0
        m = self.re.match(s, start) if "y" in self.flags else self.re.search(s, start)
        if set(self.flags) & set("gy"):
            self.props["lastIndex"] = m.end() if m else 0
        return match_array(m, s)


def match_array(m, s):
    if not m:
        return None
    r = JSArray([m.group(0)] + [U if g is None else g for g in m.groups()])
    r.props["index"] = m.start()
    r.props["input"] = s
    d = m.groupdict()
    r.props["groups"] = JSObject({k: U if v is None else v for k, v in d.items()}) if d else U
    return r


class JSMap(JSObject):
    klass = "Map"

    def __init__(self, is_set=False):
        super().__init__()
        self.d, self.is_set = {}, is_set

    @staticmethod
    def key(v):
        if isinstance(v, (SymNum, SymInt, SymBool)):
            raise Unsupported("symbolic key")
        if isinstance(v, bool):
            return ("b", v)
        if isinstance(v, (int, float)):
            return ("n", v)
        if isinstance(v, str):
            return ("s", v)
        return ("o", id(v))

    def get(self, k):
        d = self.d
        f = None
        if k == "size":
            return len(d)
        if k == "has":
            f = lambda this, a: self.key(a[0]) in d
        elif k == "get":
            f = lambda this, a: d[self.key(a[0])][1] if self.key(a[0]) in d else U
        elif k == "set":
            def f(this, a):
                d[self.key(a[0])] = (a[0], a[1])
                return self
        elif k == "add":
            def f(this, a):
                d.setdefault(self.key(a[0]), (a[0], a[0]))
                return self
        elif k == "delete":
            f = lambda this, a: d.pop(self.key(a[0]), None) is not None
        elif k == "clear":
            f = lambda this, a: d.clear() or U
        elif k == "forEach":
            def f(this, a):
                for x, v in list(d.values()):
                    call(a[0], U, [v, x, self])
                return U
        elif k == "keys":
            f = lambda this, a: JSArray(x for x, _ in d.values())
        elif k == "values":
            f = lambda this, a: JSArray(v for _, v in d.values())
        elif k == "entries":
            f = lambda this, a: JSArray(JSArray(p) for p in d.values())
        return JSFunction(k, f) if f else super().get(k)


class Promise(JSObject):
    klass = "Promise"

    def __init__(self, loop):
        super().__init__()
        self.loop, self.state, self.value, self.cbs = loop, "pending", U, []

    def resolve(self, v=U):
        if self.state != "pending":
            return
        if isinstance(v, Promise):
            v.then(self.resolve, self.reject)
            return
        self.settle("ok", v)

    def reject(self, v=U):
        if self.state == "pending":
            self.settle("error", v)

    def settle(self, state, v):
        self.state, self.value = state, v
        for cb in self.cbs:
            self.loop.micro.append(cb)
        self.cbs = []

    def then(self, ok, err):
        cb = lambda: ok(self.value) if self.state == "ok" else err(self.value)
        if self.state == "pending":
            self.cbs.append(cb)
        else:
            self.loop.micro.append(cb)

    def chain(self, ok, err):
        p = Promise(self.loop)

        def run(f, through):
            def g(v):
                if not isinstance(f, JSFunction):
                    return through(v)
                try:
                    p.resolve(call(f, U, [v]))
                except JSThrow as t:
                    p.reject(t.value)
            return g

        self.then(run(ok, p.resolve), run(err, p.reject))
        return p

    def get(self, k):
        if k == "then":
            return JSFunction(k, lambda this, a: self.chain(a[0] if a else U, a[1] if len(a) > 1 else U))
        if k == "catch":
            return JSFunction(k, lambda this, a: self.chain(U, a[0] if a else U))
        if k == "finally":
            def fin(this, a):
                f = a[0]
                ok = JSFunction("", lambda _, b: (call(f, U, []), b[0])[1])

                def err(_, b):
                    call(f, U, [])
                    raise JSThrow(b[0])
                return self.chain(ok, JSFunction("", err))
            return JSFunction(k, fin)
        return super().get(k)


class Loop:
    """Tasks that are due: microtasks first, then tasks in order; timers when asked for."""

    def __init__(self):
        self.micro, self.tasks, self.timers, self.ids = [], [], [], 0
        self.errors = []

    def guarded(self, f):
        try:
            f()
        except JSThrow as t:
            self.errors.append(describe(t.value))

    def drain(self):
        n = 0
        while self.micro or self.tasks:
            n += 1
            if n > 10000:
                raise Unsupported("event loop does not come to rest")
            self.guarded((self.micro or self.tasks).pop(0))

    def run_until(self, done):
        n = 0
        while not done():
            if not (self.micro or self.tasks):
                raise Unsupported("awaits something that never happens")
            n += 1
            if n > 10000:
                raise Unsupported("event loop does not come to rest")
            self.guarded((self.micro or self.tasks).pop(0))

    def add_timer(self, f, ms):
        self.ids += 1
        self.timers.append((self.ids, f, ms))
        return self.ids

    def fire_timers(self, n=None):
        todo = sorted(self.timers, key=lambda t: t[2])[:n]
        self.timers = [t for t in self.timers if not any(t is x for x in todo)]
        for _, f, _ in todo:
            self.guarded(f)
            self.drain()


def describe(v):
    if isinstance(v, JSObject) and v.has("message"):
        return f"{to_str(v.get('name'))}: {to_str(v.get('message'))}"
    try:
        return to_str(v)
    except Exception:
        return "?"


def error(kind, msg):
    return JSThrow(JSObject({"name": kind, "message": msg, "@@error": kind}))


# -- conversions -----------------------------------------------------------------------
def truthy(v):
    if v is U or v is None:
        return False
    if isinstance(v, (bool, SymBool)):
        return bool(v)
    if isinstance(v, float):
        return v == v and v != 0
    if isinstance(v, (SymInt, SymNum)):
        return bool(SymBool(SymNum.of(v) != 0))
    if isinstance(v, (int, str)):
        return bool(v)
    return True


def to_num(v):
    if isinstance(v, (SymInt, SymNum)):
        return v
    if isinstance(v, SymBool):
        return int(bool(v))
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, float)):
        return v
    if v is None:
        return 0
    if v is U:
        return math.nan
    if isinstance(v, str):
        s = v.strip()
        if not s:
            return 0
        try:
            if re.match(r"^0[xX]", s):
                return int(s, 16)
            f = float(s) if re.match(r"^[+-]?(\d|\.\d|Infinity$)", s) and "_" not in s else math.nan
        except ValueError:
            return math.nan
        return norm(f)
    if isinstance(v, JSArray):
        return to_num(to_str(v))
    return math.nan


def norm(f):
    if isinstance(f, float) and math.isfinite(f) and f == int(f) and abs(f) < 2**53:
        return int(f)
    return f


def to_str(v):
    if isinstance(v, str):
        return v
    if v is U:
        return "undefined"
    if v is None:
        return "null"
    if isinstance(v, (bool, SymBool)):
        return "true" if v else "false"
    if isinstance(v, SymInt):
        return str(v)
    if isinstance(v, SymNum):
        raise Unsupported("text of a symbolic number")
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        if v != v:
            return "NaN"
        if math.isinf(v):
            return "Infinity" if v > 0 else "-Infinity"
        r = repr(v)
        return r[:-2] if r.endswith(".0") else r
    if isinstance(v, JSArray):
        return ",".join("" if x is U or x is None else to_str(x) for x in v.a)
    if isinstance(v, JSFunction):
        return f"function {v.name}() {{ [code] }}"
    if isinstance(v, JSRegex):
        return f"/{v.source}/{v.flags}"
    if isinstance(v, JSObject):
        f = v.get("toString")
        if isinstance(f, JSFunction) and f.fn is not OBJECT_METHODS["toString"]:
            return to_str(call(f, v, []))
        if v.has("@@error"):
            return describe(v)
        return f"[object {v.klass}]"
    return str(v)


def key_of(v):
    return v if isinstance(v, str) else to_str(v)


def type_of(v):
    if v is U:
        return "undefined"
    if isinstance(v, (bool, SymBool)):
        return "boolean"
    if isinstance(v, (int, float, SymNum)):
        return "number"
    if isinstance(v, str):
        return "string"
    return "function" if isinstance(v, JSFunction) else "object"


def iterate(v):
    if isinstance(v, JSArray):
        return list(v.a)
    if isinstance(v, str):
        return list(v)
    if isinstance(v, JSMap):
        return [x for x, _ in v.d.values()] if v.is_set else [JSArray(p) for p in v.d.values()]
    if hasattr(v, "items_"):
        return v.items_()
    raise error("TypeError", f"{describe(v)} is not iterable")


def get(o, k):
    if isinstance(o, JSObject):
        return o.get(k)
    if o is U or o is None:
        raise error("TypeError", f"Cannot read properties of {to_str(o)} (reading '{k}')")
    if isinstance(o, str):
        if k == "length":
            return len(o)
        if k.isdigit():
            return o[int(k)] if int(k) < len(o) else U
        f = STRING.get(k)
        return JSFunction(k, f) if f else U
    if isinstance(o, (int, float, SymNum)) and not isinstance(o, bool):
        f = NUMBER.get(k)
        return JSFunction(k, f) if f else U
    if k == "toString":
        return JSFunction(k, lambda this, a: to_str(this))
    return U


def put(o, k, v):
    if o is U or o is None:
        raise error("TypeError", f"Cannot set properties of {to_str(o)} (setting '{k}')")
    if isinstance(o, JSObject):
        o.set(k, v)


def call(f, this, args):
    if not isinstance(f, JSFunction):
        raise error("TypeError", f"{describe(f)} is not a function")
    return f.fn(this, list(args))


def construct(f, args):
    if not isinstance(f, JSFunction):
        raise error("TypeError", f"{describe(f)} is not a constructor")
    if f.construct:
        return f.construct(list(args))
    o = JSObject(proto=f.get("prototype"))
    r = f.fn(o, list(args))
    return r if isinstance(r, JSObject) else o


def strict_eq(a, b):
    if isinstance(a, (bool, SymBool)) or isinstance(b, (bool, SymBool)):
        if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
            return a == b if not isinstance(a, bool) or isinstance(b, bool) else b == a
        return False
    if isinstance(a, (int, float, SymNum)) and isinstance(b, (int, float, SymNum)):
        if symbolic(a, b):
            return SymBool(SymNum.of(a) == SymNum.of(b))
        return a == b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return a is b


def loose_eq(a, b):
    nullish = lambda v: v is U or v is None
    if nullish(a) or nullish(b):
        return nullish(a) and nullish(b)
    ta, tb = type_of(a), type_of(b)
    if ta == tb or {ta, tb} <= {"object", "function"}:
        return strict_eq(a, b)
    if "boolean" in (ta, tb):
        return loose_eq(to_num(a) if ta == "boolean" else a, to_num(b) if tb == "boolean" else b)
    if {ta, tb} == {"number", "string"}:
        return strict_eq(to_num(a), to_num(b))
    prim = lambda v: to_str(v) if isinstance(v, JSObject) else v
    return loose_eq(prim(a), prim(b))


def add(a, b):
    if isinstance(a, JSObject):
        a = to_str(a)
    if isinstance(b, JSObject):
        b = to_str(b)
    if isinstance(a, str) or isinstance(b, str):
        return to_str(a) + to_str(b)
    return arith("+", a, b)


def arith(op, a, b):
    a, b = to_num(a), to_num(b)
    if symbolic(a, b):
        x, y = SymNum.of(a), SymNum.of(b)
        if op == "+":
            return SymNum(x + y)
        if op == "-":
            return SymNum(x - y)
        if op == "*":
            return SymNum(x * y)
        if op == "/":
            if isinstance(b, (int, float)) and b == 0 or not isinstance(b, (int, float)) and bool(SymBool(y == 0)):
                raise Unsupported("symbolic division by zero")
            return SymNum(x / y)
        raise Unsupported(f"symbolic {op}")
    try:
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            if b == 0:
                r = math.nan if a == 0 or a != a else math.copysign(math.inf, a)
            else:
                r = a / b
        elif op == "%":
            r = math.nan if b == 0 or math.isinf(a) else math.fmod(a, b) if not math.isinf(b) else a
        elif op == "**":
            r = a**b
        else:
            i = lambda v: 0 if v != v or math.isinf(v) else ((int(v) + 2**31) % 2**32) - 2**31
            x, y = i(a), i(b)
            r = {"&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: i(x << (y & 31)),
                 ">>": lambda: x >> (y & 31), ">>>": lambda: (x % 2**32) >> (y & 31)}[op]()
    except OverflowError:
        r = math.inf
    return norm(r)


def compare(op, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
    a, b = to_num(a), to_num(b)
    if symbolic(a, b):
        x, y = SymNum.of(a), SymNum.of(b)
        return SymBool({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
    return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]


def negate(v):
    if isinstance(v, SymBool):
        return ~v
    return not truthy(v)


def instance_of(v, c):
    if not isinstance(c, JSFunction):
        raise error("TypeError", "Right-hand side of 'instanceof' is not callable")
    if c.name == "Array":
        return isinstance(v, JSArray)
    if c.name in ("Error", "TypeError", "RangeError", "SyntaxError") and isinstance(v, JSObject) and v.has("@@error"):
        return c.name == "Error" or v.get("@@error") == c.name
    if hasattr(v, "instance_of"):
        return v.instance_of(c.name)
    p = c.get("prototype")
    o = v.proto if isinstance(v, JSObject) else None
    while o is not None:
        if o is p:
            return True
        o = o.proto
    return False


# -- built-in methods ------------------------------------------------------------------
def arg(a, i, d=U):
    return a[i] if i < len(a) else d


def index_arg(v, n, default):
    if v is U:
        return default
    v = to_num(v)
    v = 0 if v != v else v
    if math.isinf(v):
        return n if v > 0 else 0
    v = int(v)
    return max(0, n + v) if v < 0 else min(v, n)


def _a(this):
    if isinstance(this, JSArray):
        return this.a
    if isinstance(this, str) or hasattr(this, "items_"):
        return iterate(this)
    raise error("TypeError", "not an array")


def _calls(name):
    def deco(f):
        ARRAY[name] = f
        return f
    return deco


ARRAY = {}


def each(this, f, thisarg=U):
    for i, v in enumerate(list(_a(this))):
        yield v, i, call(f, thisarg, [v, i, this])


def a_find(rev, idx):
    def fn(this, a):
        xs = list(enumerate(_a(this)))
        for i, v in reversed(xs) if rev else xs:
            if truthy(call(a[0], arg(a, 1), [v, i, this])):
                return i if idx else v
        return -1 if idx else U
    return fn


def a_foreach(this, a):
    for _ in each(this, a[0], arg(a, 1)):
        pass
    return U


def a_reduce(rev):
    def fn(this, a):
        xs = list(enumerate(_a(this)))
        if rev:
            xs.reverse()
        if len(a) > 1:
            acc = a[1]
        elif not xs:
            raise error("TypeError", "Reduce of empty array with no initial value")
        else:
            acc = xs.pop(0)[1]
        for i, v in xs:
            acc = call(a[0], U, [acc, v, i, this])
        return acc
    return fn


def a_indexof(this, a):
    xs = _a(this)
    for i in range(index_arg(arg(a, 1), len(xs), 0), len(xs)):
        if truthy(strict_eq(xs[i], arg(a, 0))):
            return i
    return -1


def a_lastindexof(this, a):
    xs = _a(this)
    for i in reversed(range(len(xs))):
        if truthy(strict_eq(xs[i], arg(a, 0))):
            return i
    return -1


def a_includes(this, a):
    return any(truthy(strict_eq(x, arg(a, 0))) for x in _a(this))


def a_sort(this, a):
    from functools import cmp_to_key

    if a and isinstance(a[0], JSFunction):
        def cmp(x, y):
            r = to_num(call(a[0], U, [x, y]))
            if truthy(compare("<", r, 0)):
                return -1
            return 1 if truthy(compare(">", r, 0)) else 0
        this.a.sort(key=cmp_to_key(cmp))
    else:
        this.a.sort(key=to_str)
    return this


def a_splice(this, a):
    n = len(this.a)
    s = index_arg(arg(a, 0), n, 0)
    c = n - s if len(a) < 2 else max(0, min(int(to_num(a[1])), n - s))
    out = this.a[s:s + c]
    this.a[s:s + c] = a[2:]
    return JSArray(out)


def a_flat(xs, depth):
    out = []
    for x in xs:
        out += a_flat(x.a, depth - 1) if isinstance(x, JSArray) and depth > 0 else [x]
    return out


def a_push(this, a):
    this.a += a
    return len(this.a)


def a_unshift(this, a):
    this.a[:0] = a
    return len(this.a)


def a_reverse(this, a):
    this.a.reverse()
    return this


def a_fill(this, a):
    n = len(this.a)
    for i in range(index_arg(arg(a, 1), n, 0), index_arg(arg(a, 2), n, n)):
        this.a[i] = a[0]
    return this


def a_concat(this, a):
    out = list(_a(this))
    for x in a:
        out += x.a if isinstance(x, JSArray) else [x]
    return JSArray(out)


ARRAY.update({
    "forEach": a_foreach,
    "map": lambda this, a: JSArray(r for _, _, r in each(this, a[0], arg(a, 1))),
    "filter": lambda this, a: JSArray(v for v, _, r in each(this, a[0], arg(a, 1)) if truthy(r)),
    "some": lambda this, a: any(truthy(r) for _, _, r in each(this, a[0])),
    "every": lambda this, a: all(truthy(r) for _, _, r in each(this, a[0])),
    "find": a_find(False, False), "findIndex": a_find(False, True),
    "findLast": a_find(True, False), "findLastIndex": a_find(True, True),
    "reduce": a_reduce(False), "reduceRight": a_reduce(True),
    "indexOf": a_indexof, "lastIndexOf": a_lastindexof, "includes": a_includes,
    "slice": lambda this, a: JSArray(_a(this)[index_arg(arg(a, 0), len(_a(this)), 0):index_arg(arg(a, 1), len(_a(this)), len(_a(this)))]),
    "splice": a_splice, "concat": a_concat, "reverse": a_reverse,
    "toReversed": lambda this, a: JSArray(reversed(_a(this))),
    "toSorted": lambda this, a: a_sort(JSArray(_a(this)), a),
    "join": lambda this, a: (to_str(a[0]) if a and a[0] is not U else ",").join("" if x is U or x is None else to_str(x) for x in _a(this)),
    "push": a_push, "unshift": a_unshift,
    "pop": lambda this, a: this.a.pop() if this.a else U,
    "shift": lambda this, a: this.a.pop(0) if this.a else U,
    "flat": lambda this, a: JSArray(a_flat(_a(this), to_num(arg(a, 0, 1)))),
    "flatMap": lambda this, a: JSArray(a_flat([r for _, _, r in each(this, a[0])], 1)),
    "at": lambda this, a: (lambda xs, i: xs[i] if -len(xs) <= i < len(xs) else U)(_a(this), int(to_num(arg(a, 0, 0)))),
    "entries": lambda this, a: JSArray(JSArray(p) for p in enumerate(_a(this))),
    "keys": lambda this, a: JSArray(range(len(_a(this)))),
    "values": lambda this, a: JSArray(_a(this)),
    "fill": a_fill,
    "toString": lambda this, a: to_str(this),
})


def s_replace(all_):
    def fn(this, a):
        pat, rep = a[0], a[1]

        def out(m, s):
            groups = [m.group(0)] + [U if g is None else g for g in m.groups()]
            if isinstance(rep, JSFunction):
                return to_str(call(rep, U, groups + [m.start(), s]))

            def sub(d):
                c = d.group(1)
                if c == "$":
                    return "$"
                if c == "&":
                    return m.group(0)
                if c.isdigit():
                    n = int(c)
                    return (m.group(n) or "") if n <= len(m.groups()) and n else d.group(0)
                return d.group(0)
            return re.sub(r"\$(\$|&|\d{1,2})", sub, to_str(rep))

        if isinstance(pat, JSRegex):
            return pat.re.sub(lambda m: out(m, this), this, count=0 if "g" in pat.flags else 1)
        return re.sub(re.escape(to_str(pat)), lambda m: out(m, this), this, count=0 if all_ else 1)
    return fn


def s_split(this, a):
    if not a or a[0] is U:
        return JSArray([this])
    lim = None if arg(a, 1) is U else int(to_num(a[1]))
    if isinstance(a[0], JSRegex):
        out = [U if x is None else x for x in a[0].re.split(this)]
    elif a[0] == "":
        out = list(this)
    else:
        out = this.split(to_str(a[0]))
    return JSArray(out[:lim])


def s_match(this, a):
    r = a[0] if isinstance(a[0], JSRegex) else JSRegex(to_str(a[0]), "")
    if "g" in r.flags:
        ms = [m.group(0) for m in r.re.finditer(this)]
        return JSArray(ms) if ms else None
    return match_array(r.re.search(this), this)


def s_substring(this, a):
    i, j = index_arg(arg(a, 0), 10**9, 0), index_arg(arg(a, 1), 10**9, len(this))
    clamp = lambda v: 0 if isinstance(v, (int, float)) and v < 0 else v
    i = 0 if len(a) > 0 and clamp(to_num(a[0])) == 0 else i
    j = 0 if len(a) > 1 and a[1] is not U and clamp(to_num(a[1])) == 0 else j
    return this[min(i, j):max(i, j)]


STRING = {
    "toString": lambda this, a: this, "valueOf": lambda this, a: this,
    "includes": lambda this, a: to_str(a[0]) in this[index_arg(arg(a, 1), len(this), 0):],
    "startsWith": lambda this, a: this.startswith(to_str(a[0]), index_arg(arg(a, 1), len(this), 0)),
    "endsWith": lambda this, a: this[:index_arg(arg(a, 1), len(this), len(this))].endswith(to_str(a[0])),
    "indexOf": lambda this, a: this.find(to_str(a[0]), index_arg(arg(a, 1), len(this), 0)),
    "lastIndexOf": lambda this, a: this.rfind(to_str(a[0])),
    "slice": lambda this, a: this[index_arg(arg(a, 0), len(this), 0):index_arg(arg(a, 1), len(this), len(this))],
    "substring": s_substring,
    "substr": lambda this, a: this[index_arg(arg(a, 0), len(this), 0):][:None if arg(a, 1) is U else int(to_num(a[1]))],
    "replace": s_replace(False), "replaceAll": s_replace(True), "split": s_split, "match": s_match,
    "matchAll": lambda this, a: JSArray(match_array(m, this) for m in a[0].re.finditer(this)),
    "search": lambda this, a: (lambda m: m.start() if m else -1)(a[0].re.search(this)),
    "trim": lambda this, a: this.strip(), "trimStart": lambda this, a: this.lstrip(), "trimEnd": lambda this, a: this.rstrip(),
    "toUpperCase": lambda this, a: this.upper(), "toLowerCase": lambda this, a: this.lower(),
    "charAt": lambda this, a: (lambda i: this[i] if 0 <= i < len(this) else "")(int(to_num(arg(a, 0, 0)))),
    "charCodeAt": lambda this, a: ord(this[int(to_num(arg(a, 0, 0)))]),
    "codePointAt": lambda this, a: ord(this[int(to_num(arg(a, 0, 0)))]),
    "at": lambda this, a: (lambda i: this[i] if -len(this) <= i < len(this) else U)(int(to_num(arg(a, 0, 0)))),
    "concat": lambda this, a: this + "".join(map(to_str, a)),
    "repeat": lambda this, a: this * int(to_num(a[0])),
    "padStart": lambda this, a: this.rjust(int(to_num(a[0])), to_str(arg(a, 1, " "))),
    "padEnd": lambda this, a: this.ljust(int(to_num(a[0])), to_str(arg(a, 1, " "))),
    "localeCompare": lambda this, a: (this > to_str(a[0])) - (this < to_str(a[0])),
}


def n_tofixed(this, a):
    if symbolic(this):
        raise Unsupported("text of a symbolic number")
    return f"{this:.{int(to_num(arg(a, 0, 0)))}f}"


NUMBER = {"toString": lambda this, a: to_str(this), "toFixed": n_tofixed, "valueOf": lambda this, a: this}

OBJECT_METHODS = {
    "hasOwnProperty": lambda this, a: isinstance(this, JSObject) and key_of(a[0]) in this.keys(),
    "toString": lambda this, a: to_str(this),
    "valueOf": lambda this, a: this,
}


# -- scopes ----------------------------------------------------------------------------
class Ref:
    __slots__ = ("v", "const", "alias")

    def __init__(self, v=HOLE, const=False, alias=None):
        self.v, self.const, self.alias = v, const, alias


class Env:
    __slots__ = ("vars", "up", "this", "glob")

    def __init__(self, up=None, this=HOLE):
        self.vars, self.up, self.this = {}, up, this
        self.glob = up.glob if up else None

    def ref(self, name):
        e = self
        while e is not None:
            r = e.vars.get(name)
            if r is not None:
                return r.alias() if r.alias else r
            e = e.up
        return None

    def lookup(self, name):
        r = self.ref(name)
        if r is None:
            v = self.glob.lookup(name)
            if v is HOLE:
                raise error("ReferenceError", f"{name} is not defined")
            return v
        if r.v is HOLE:
            raise error("ReferenceError", f"Cannot access '{name}' before initialization")
        return r.v

    def assign(self, name, v):
        r = self.ref(name)
        if r is None:
            if not self.glob.assign(name, v):
                raise error("ReferenceError", f"{name} is not defined")
            return
        if r.v is HOLE:
            raise error("ReferenceError", f"Cannot access '{name}' before initialization")
        if r.const:
            raise error("TypeError", "Assignment to constant variable.")
        r.v = v

    def this_value(self):
        e = self
        while e is not None:
            if e.this is not HOLE:
                return e.this
            e = e.up
        return U


# -- compilation -----------------------------------------------------------------------
class Compiler:
    """ESTree nodes to closures taking an Env."""

    def __init__(self, interp):
        self.interp, self.path = interp, ""

    def expr(self, n):
        f = getattr(self, "e_" + n["type"], None)
        if f is None:
            t = n["type"]

            def unsupported(env):
                raise Unsupported(f"JavaScript: {t}")
            return unsupported
        return f(n)

    def stmt(self, n):
        f = getattr(self, "s_" + n["type"], None)
        if f is None:
            t = n["type"]

            def unsupported(env):
                raise Unsupported(f"JavaScript: {t}")
            return unsupported
        return f(n)

    # patterns
    def names(self, p):
        t = p["type"]
        if t == "Identifier":
            return [p["name"]]
        if t == "ObjectPattern":
            return [x for q in p["properties"] for x in self.names(q["argument"] if q["type"] == "RestElement" else q["value"])]
        if t == "ArrayPattern":
            return [x for q in p["elements"] if q for x in self.names(q)]
        if t == "AssignmentPattern":
            return self.names(p["left"])
        if t == "RestElement":
            return self.names(p["argument"])
        return []

    def pattern(self, p, declare):
        """-> f(env, value); declare: initialise a binding of this very scope instead of assigning."""
        t = p["type"]
        if t == "Identifier":
            name = p["name"]
            if declare:
                def init(env, v):
                    env.ref(name).v = v
                return init
            return lambda env, v: env.assign(name, v)
        if t == "MemberExpression":
            o, k = self.expr(p["object"]), self.key(p)
            return lambda env, v: put(o(env), k(env), v)
        if t == "AssignmentPattern":
            left, right = self.pattern(p["left"], declare), self.expr(p["right"])
            return lambda env, v: left(env, right(env) if v is U else v)
        if t == "ArrayPattern":
            parts = []
            for q in p["elements"]:
                if q is None:
                    parts.append(None)
                elif q["type"] == "RestElement":
                    parts.append(("rest", self.pattern(q["argument"], declare)))
                else:
                    parts.append(("one", self.pattern(q, declare)))

            def arr(env, v):
                xs = iterate(v)
                for i, q in enumerate(parts):
                    if q is None:
                        continue
                    if q[0] == "rest":
                        q[1](env, JSArray(xs[i:]))
                    else:
                        q[1](env, xs[i] if i < len(xs) else U)
            return arr
        if t == "ObjectPattern":
            parts = []
            for q in p["properties"]:
                if q["type"] == "RestElement":
                    parts.append((None, self.pattern(q["argument"], declare)))
                else:
                    k = self.expr(q["key"]) if q["computed"] else None
                    name = None if k else q["key"].get("name", q["key"].get("value"))
                    parts.append((k or (lambda env, name=name: key_of(name)), self.pattern(q["value"], declare)))

            def obj(env, v):
                if v is U or v is None:
                    raise error("TypeError", f"Cannot destructure {to_str(v)}")
                used = []
                for k, f in parts:
                    if k is None:
                        f(env, JSObject({x: get(v, x) for x in v.keys() if x not in used}))
                    else:
                        name = key_of(k(env))
                        used.append(name)
                        f(env, get(v, name))
            return obj
        raise Unsupported(f"JavaScript: pattern {t}")

    # scoping
    def hoist(self, body, fn_scope):
        """Declarations of a block: (lexical names with const flag, var names, functions)."""
        lex, var, fns = [], [], []
        for s in body:
            d = s.get("declaration") if s["type"] in ("ExportNamedDeclaration", "ExportDefaultDeclaration") else s
            if not d:
                continue
            if d["type"] == "VariableDeclaration" and d["kind"] != "var":
                lex += [(x, d["kind"] == "const") for q in d["declarations"] for x in self.names(q["id"])]
            elif d["type"] == "ClassDeclaration" and d.get("id"):
                lex.append((d["id"]["name"], False))
            elif d["type"] == "FunctionDeclaration" and d.get("id"):
                fns.append((d["id"]["name"], self.function(d)))
        if fn_scope:
            self.vars(body, var)
        return lex, var, fns

    def vars(self, n, out):
        if isinstance(n, list):
            for x in n:
                self.vars(x, out)
        elif isinstance(n, dict):
            t = n.get("type")
            if t in ("FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression", "ClassDeclaration", "ClassExpression"):
                return
            if t == "VariableDeclaration" and n["kind"] == "var":
                for q in n["declarations"]:
                    out += self.names(q["id"])
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.vars(v, out)

    def enter(self, env, h):
        lex, var, fns = h
        for x in var:
            if x not in env.vars:
                env.vars[x] = Ref(U)
        for x, const in lex:
            env.vars[x] = Ref(HOLE, const)
        for x, mk in fns:
            env.vars[x] = Ref(mk(env))

    def block(self, body, fn_scope=False):
        h = self.hoist(body, fn_scope)
        ss = [self.stmt(s) for s in body if s["type"] != "FunctionDeclaration"]
        empty = not any(h)

        def run(env, fresh=True):
            e = Env(env) if fresh and not empty else env
            self.enter(e, h)
            for s in ss:
                s(e)
        return run

    def function(self, n):
        """-> f(env) making the function value."""
        params = n["params"]
        arrow = n["type"] == "ArrowFunctionExpression"
        is_async = n.get("async")
        if n.get("generator"):
            def unsupported(env):
                raise Unsupported("JavaScript: generators")
            return unsupported
        names = [x for p in params for x in self.names(p)]
        pats = [("rest", self.pattern(p["argument"], True)) if p["type"] == "RestElement" else ("one", self.pattern(p, True)) for p in params]
        body = self.block(n["body"]["body"], True) if n["body"]["type"] == "BlockStatement" else None
        value = None if body else self.expr(n["body"])
        name = (n.get("id") or {}).get("name", "") if n.get("id") else ""
        is_expr = n["type"] == "FunctionExpression"
        interp = self.interp
        where = (self.path, name if name else f"(at {n['start']})")

        def make(env):
            outer = env
            if is_expr and name:
                outer = Env(env)

            def run(this, args):
                CALLED.add(where)
                interp.depth += 1
                if interp.depth > 200:
                    interp.depth = 0
                    raise error("RangeError", "Maximum call stack size exceeded")
                try:
                    e = Env(outer, HOLE if arrow else this)
                    for x in names:
                        e.vars[x] = Ref(U)
                    if not arrow:
                        e.vars["arguments"] = Ref(JSArray(args))
                    for i, (kind, p) in enumerate(pats):
                        p(e, JSArray(args[i:]) if kind == "rest" else args[i] if i < len(args) else U)
                    if value:
                        return value(e)
                    try:
                        body(e)
                    except _Return as r:
                        return r.value
                    return U
                finally:
                    interp.depth = max(0, interp.depth - 1)

            if is_async:
                def fn(this, args):
                    p = Promise(interp.loop)
                    try:
                        p.resolve(run(this, args))
                    except JSThrow as t:
                        p.reject(t.value)
                    return p
            else:
                fn = run
            f = JSFunction(name, fn)
            if arrow:
                def no(args):
                    raise error("TypeError", "not a constructor")
                f.construct = no
            if outer is not env:
                outer.vars[name] = Ref(f)
            return f
        return make

    # expressions
    def e_Literal(self, n):
        if "regex" in n:
            src, flags = n["regex"]["pattern"], n["regex"]["flags"]
            return lambda env: JSRegex(src, flags)
        v = n.get("value")
        if isinstance(v, float):
            v = norm(v)
        if "bigint" in n:
            raise Unsupported("JavaScript: bigint")
        return lambda env: v

    def e_Identifier(self, n):
        name = n["name"]
        if name == "undefined":
            return lambda env: U
        return lambda env: env.lookup(name)

    def e_ThisExpression(self, n):
        return lambda env: env.this_value()

    def e_TemplateLiteral(self, n):
        qs = [q["value"]["cooked"] for q in n["quasis"]]
        es = [self.expr(e) for e in n["expressions"]]

        def f(env):
            out = qs[0]
            for q, e in zip(qs[1:], es):
                out += to_str(e(env)) + q
            return out
        return f

    def e_TaggedTemplateExpression(self, n):
        tag = self.expr(n["tag"])
        qs = [q["value"]["cooked"] for q in n["quasi"]["quasis"]]
        es = [self.expr(e) for e in n["quasi"]["expressions"]]
        return lambda env: call(tag(env), U, [JSArray(qs)] + [e(env) for e in es])

    def spread(self, items):
        parts = [(x["type"] == "SpreadElement", self.expr(x["argument"] if x["type"] == "SpreadElement" else x)) if x else None for x in items]

        def f(env):
            out = []
            for p in parts:
                if p is None:
                    out.append(U)
                elif p[0]:
                    out += iterate(p[1](env))
                else:
                    out.append(p[1](env))
            return out
        return f

    def e_ArrayExpression(self, n):
        f = self.spread(n["elements"])
        return lambda env: JSArray(f(env))

    def e_ObjectExpression(self, n):
        parts = []
        for p in n["properties"]:
            if p["type"] == "SpreadElement":
                parts.append(("spread", None, self.expr(p["argument"])))
                continue
            k = self.expr(p["key"]) if p["computed"] else None
            if k is None:
                name = key_of(p["key"].get("name", p["key"].get("value")))
                k = lambda env, name=name: name
            parts.append((p["kind"], k, self.expr(p["value"])))

        def f(env):
            o = JSObject()
            for kind, k, v in parts:
                if kind == "spread":
                    s = v(env)
                    if isinstance(s, JSObject):
                        for x in s.keys():
                            o.props[x] = s.get(x)
                    continue
                name = key_of(k(env))
                if kind == "init":
                    val = v(env)
                    if isinstance(val, JSFunction) and not val.name:
                        val.name = name
                    o.props[name] = val
                else:
                    acc = o.props.get(name)
                    acc = acc if isinstance(acc, Accessor) else Accessor()
                    setattr(acc, "getter" if kind == "get" else "setter", v(env))
                    o.props[name] = acc
            return o
        return f

    def e_FunctionExpression(self, n):
        return self.function(n)

    e_ArrowFunctionExpression = e_FunctionExpression

    def e_ClassExpression(self, n):
        sup = self.expr(n["superClass"]) if n.get("superClass") else None
        ctor, members = None, []
        for m in n["body"]["body"]:
            if m["type"] == "MethodDefinition":
                if m["kind"] == "constructor":
                    ctor = self.function(m["value"])
                else:
                    k = self.expr(m["key"]) if m["computed"] else (lambda env, s=m["key"].get("name", m["key"].get("value")): key_of(s))
                    members.append((m["static"], m["kind"], k, self.function(m["value"])))
            elif m["type"] == "PropertyDefinition":
                k = self.expr(m["key"]) if m["computed"] else (lambda env, s=m["key"].get("name", m["key"].get("value")): key_of(s))
                members.append((m["static"], "field", k, self.expr(m["value"]) if m["value"] else (lambda env: U)))
            else:
                members.append((False, "unsupported", None, None))
        name = (n.get("id") or {}).get("name", "") if n.get("id") else ""

        def f(env):
            if any(m[1] == "unsupported" for m in members):
                raise Unsupported("JavaScript: class member")
            parent = sup(env) if sup else None
            e = Env(env)
            proto = JSObject(proto=parent.get("prototype") if parent else None)
            fields = []
            e.vars["@@super"] = Ref(parent)
            init = ctor(e) if ctor else None

            def build(this, args):
                for k, v in fields:
                    fe = Env(e, this)
                    this.props[key_of(k(fe))] = v(fe)
                if init:
                    init.fn(this, args)
                elif parent:
                    parent.init(this, args)
                return this

            def cons(args):
                return build(JSObject(proto=proto), args)

            def nocall(this, args):
                raise error("TypeError", "Class constructor cannot be invoked without 'new'")
            c = JSFunction(name, nocall, cons)
            c.init = build
            c.props["prototype"] = proto
            proto.props["constructor"] = c
            e.vars["@@superproto"] = Ref(proto.proto)
            if name:
                e.vars[name] = Ref(c)
            for static, kind, k, v in members:
                target = c if static else proto
                if kind == "field":
                    if static:
                        target.props[key_of(k(e))] = v(Env(e, c))
                    else:
                        fields.append((k, v))
                elif kind == "method":
                    target.props[key_of(k(e))] = v(e)
                else:
                    nm = key_of(k(e))
                    acc = target.props.get(nm)
                    acc = acc if isinstance(acc, Accessor) else Accessor()
                    setattr(acc, "getter" if kind == "get" else "setter", v(e))
                    target.props[nm] = acc
            return c
        return f

    def key(self, n):
        if n["property"]["type"] == "PrivateName" or n["property"]["type"] == "PrivateIdentifier":
            name = "@@#" + n["property"]["name"]
            return lambda env: name
        if n["computed"]:
            k = self.expr(n["property"])
            return lambda env: key_of(k(env))
        name = n["property"]["name"]
        return lambda env: name

    def e_MemberExpression(self, n):
        if n["object"]["type"] == "Super":
            k = self.key(n)
            return lambda env: get(env.lookup("@@superproto"), k(env))
        o, k, opt = self.expr(n["object"]), self.key(n), n.get("optional")

        def f(env):
            v = o(env)
            if opt and (v is U or v is None):
                raise _Short()
            return get(v, k(env))
        return f

    def e_ChainExpression(self, n):
        e = self.expr(n["expression"])

        def f(env):
            try:
                return e(env)
            except _Short:
                return U
        return f

    def e_CallExpression(self, n):
        args, opt = self.spread(n["arguments"]), n.get("optional")
        c = n["callee"]
        if c["type"] == "Super":
            def sup(env):
                p = env.lookup("@@super")
                p.init(env.this_value(), args(env))
                return U
            return sup
        if c["type"] == "MemberExpression":
            is_super = c["object"]["type"] == "Super"
            o = (lambda env: env.this_value()) if is_super else self.expr(c["object"])
            k, copt = self.key(c), c.get("optional")

            def method(env):
                this = o(env)
                if copt and (this is U or this is None):
                    raise _Short()
                name = k(env)
                fn = get(env.lookup("@@superproto") if is_super else this, name)
                if opt and (fn is U or fn is None):
                    raise _Short()
                if not isinstance(fn, JSFunction):
                    raise error("TypeError", f"{name} is not a function")
                return fn.fn(this, args(env))
            return method
        f = self.expr(c)

        def plain(env):
            fn = f(env)
            if opt and (fn is U or fn is None):
                raise _Short()
            if not isinstance(fn, JSFunction):
                raise error("TypeError", f"{c.get('name', 'expression')} is not a function")
            return fn.fn(U, args(env))
        return plain

    def e_NewExpression(self, n):
        f, args = self.expr(n["callee"]), self.spread(n["arguments"])
        return lambda env: construct(f(env), args(env))

    def e_ImportExpression(self, n):
        src = self.expr(n["source"])

        def f(env):
            p = Promise(self.interp.loop)
            try:
                p.resolve(self.interp.namespace(to_str(src(env))))
            except JSThrow as t:
                p.reject(t.value)
            return p
        return f

    def e_AwaitExpression(self, n):
        e = self.expr(n["argument"])

        def f(env):
            v = e(env)
            if not isinstance(v, Promise):
                return v
            loop = self.interp.loop
            depth, self.interp.depth = self.interp.depth, 0
            loop.run_until(lambda: v.state != "pending")
            self.interp.depth = depth
            if v.state == "error":
                raise JSThrow(v.value)
            return v.value
        return f

    def e_UnaryExpression(self, n):
        op, a = n["operator"], n["argument"]
        if op == "typeof":
            e = self.expr(a)
            if a["type"] == "Identifier":
                def t(env):
                    try:
                        return type_of(e(env))
                    except JSThrow:
                        return "undefined"
                return t
            return lambda env: type_of(e(env))
        if op == "delete":
            if a["type"] == "ChainExpression":
                a = a["expression"]
            if a["type"] != "MemberExpression":
                return lambda env: True
            o, k = self.expr(a["object"]), self.key(a)

            def d(env):
                v = o(env)
                if isinstance(v, JSObject):
                    v.delete(k(env))
                return True
            return d
        e = self.expr(a)
        if op == "!":
            return lambda env: negate(e(env))
        if op == "-":
            return lambda env: arith("*", -1, e(env))
        if op == "+":
            return lambda env: to_num(e(env))
        if op == "~":
            return lambda env: arith("^", e(env), -1)
        return lambda env: (e(env), U)[1]

    def e_BinaryExpression(self, n):
        op = n["operator"]
        if n["left"]["type"] == "PrivateIdentifier":
            name, r = "@@#" + n["left"]["name"], self.expr(n["right"])
            return lambda env: r(env).has(name)
        l, r = self.expr(n["left"]), self.expr(n["right"])
        if op == "+":
            return lambda env: add(l(env), r(env))
        if op == "===":
            return lambda env: strict_eq(l(env), r(env))
        if op == "!==":
            return lambda env: negate(strict_eq(l(env), r(env)))
        if op == "==":
            return lambda env: loose_eq(l(env), r(env))
        if op == "!=":
            return lambda env: negate(loose_eq(l(env), r(env)))
        if op in ("<", ">", "<=", ">="):
            return lambda env: compare(op, l(env), r(env))
        if op == "in":
            return lambda env: (lambda k, o: o.has(k))(key_of(l(env)), r(env))
        if op == "instanceof":
            return lambda env: instance_of(l(env), r(env))
        return lambda env: arith(op, l(env), r(env))

    def e_LogicalExpression(self, n):
        op, l, r = n["operator"], self.expr(n["left"]), self.expr(n["right"])
        if op == "??":
            def f(env):
                v = l(env)
                return r(env) if v is U or v is None else v
        elif op == "&&":
            def f(env):
                v = l(env)
                return r(env) if truthy(v) else (False if isinstance(v, SymBool) else v)
        else:
            def f(env):
                v = l(env)
                return (True if isinstance(v, SymBool) else v) if truthy(v) else r(env)
        return f

    def e_ConditionalExpression(self, n):
        t, a, b = self.expr(n["test"]), self.expr(n["consequent"]), self.expr(n["alternate"])
        return lambda env: a(env) if truthy(t(env)) else b(env)

    def e_SequenceExpression(self, n):
        es = [self.expr(e) for e in n["expressions"]]

        def f(env):
            for e in es:
                v = e(env)
            return v
        return f

    def e_AssignmentExpression(self, n):
        op, left, r = n["operator"], n["left"], self.expr(n["right"])
        if op == "=":
            p = self.pattern(left, False)
            if left["type"] == "MemberExpression":
                o, k = self.expr(left["object"]), self.key(left)

                def member(env):
                    obj, name = o(env), k(env)
                    v = r(env)
                    put(obj, name, v)
                    return v
                return member

            def simple(env):
                v = r(env)
                p(env, v)
                return v
            return simple
        if left["type"] == "MemberExpression":
            o, k = self.expr(left["object"]), self.key(left)

            def place(env):
                obj, name = o(env), k(env)
                return (lambda: get(obj, name)), (lambda v: put(obj, name, v))
        else:
            nm = left["name"]

            def place(env):
                return (lambda: env.lookup(nm)), (lambda v: env.assign(nm, v))
        base = op[:-1]

        def f(env):
            g, s = place(env)
            old = g()
            if base in ("&&", "||", "??"):
                if base == "??":
                    skip = not (old is U or old is None)
                else:
                    skip = truthy(old) == (base == "||")
                if skip:
                    return old
                v = r(env)
            else:
                v = add(old, r(env)) if base == "+" else arith(base, old, r(env))
            s(v)
            return v
        return f

    def e_UpdateExpression(self, n):
        a, d, pre = n["argument"], 1 if n["operator"] == "++" else -1, n["prefix"]
        if a["type"] == "MemberExpression":
            o, k = self.expr(a["object"]), self.key(a)

            def f(env):
                obj, name = o(env), k(env)
                old = to_num(get(obj, name))
                new = arith("+", old, d)
                put(obj, name, new)
                return new if pre else old
            return f
        nm = a["name"]

        def g(env):
            old = to_num(env.lookup(nm))
            new = arith("+", old, d)
            env.assign(nm, new)
            return new if pre else old
        return g

    def e_ParenthesizedExpression(self, n):
        return self.expr(n["expression"])

    # statements
    def s_ExpressionStatement(self, n):
        return self.expr(n["expression"])

    def s_EmptyStatement(self, n):
        return lambda env: None

    s_DebuggerStatement = s_EmptyStatement

    def s_BlockStatement(self, n):
        return self.block(n["body"])

    def s_VariableDeclaration(self, n):
        kind = n["kind"]
        parts = []
        for d in n["declarations"]:
            init = self.expr(d["init"]) if d["init"] else None
            parts.append((self.pattern(d["id"], kind != "var"), init, d["id"].get("name")))

        def f(env):
            for p, init, name in parts:
                if init is None:
                    if kind != "var":
                        p(env, U)
                    continue
                v = init(env)
                if name and isinstance(v, JSFunction) and not v.name:
                    v.name = name
                p(env, v)
        return f

    def s_FunctionDeclaration(self, n):
        return lambda env: None  # hoisted

    def s_ClassDeclaration(self, n):
        c, name = self.e_ClassExpression(n), n["id"]["name"]

        def f(env):
            env.ref(name).v = c(env)
        return f

    def s_ReturnStatement(self, n):
        e = self.expr(n["argument"]) if n["argument"] else (lambda env: U)

        def f(env):
            raise _Return(e(env))
        return f

    def s_IfStatement(self, n):
        t, a = self.expr(n["test"]), self.stmt(n["consequent"])
        b = self.stmt(n["alternate"]) if n["alternate"] else None

        def f(env):
            if truthy(t(env)):
                a(env)
            elif b:
                b(env)
        return f

    def s_ThrowStatement(self, n):
        e = self.expr(n["argument"])

        def f(env):
            raise JSThrow(e(env))
        return f

    def s_TryStatement(self, n):
        body = self.stmt(n["block"])
        h, fin = n["handler"], self.stmt(n["finalizer"]) if n["finalizer"] else None
        if h:
            names = self.names(h["param"]) if h["param"] else []
            pat = self.pattern(h["param"], True) if h["param"] else None
            hbody = self.stmt(h["body"])

        def f(env):
            try:
                if not h:
                    body(env)
                else:
                    try:
                        body(env)
                    except JSThrow as t:
                        e = Env(env)
                        for x in names:
                            e.vars[x] = Ref(U)
                        if pat:
                            pat(e, t.value)
                        hbody(e)
            finally:
                if fin:
                    fin(env)
        return f

    def s_LabeledStatement(self, n):
        b, name = self.stmt(n["body"]) if n["body"]["type"] not in LOOPS else getattr(self, "s_" + n["body"]["type"])(n["body"], n["label"]["name"]), n["label"]["name"]

        def f(env):
            try:
                b(env)
            except _Break as x:
                if x.label != name:
                    raise
        return f

    def s_BreakStatement(self, n):
        label = n["label"]["name"] if n["label"] else None

        def f(env):
            raise _Break(label)
        return f

    def s_ContinueStatement(self, n):
        label = n["label"]["name"] if n["label"] else None

        def f(env):
            raise _Continue(label)
        return f

    def once(self, body, label):
        """Runs a loop body; -> True to leave the loop."""
        def f(env):
            try:
                body(env)
            except _Continue as c:
                if c.label is not None and c.label != label:
                    raise
            except _Break as b:
                if b.label is not None:
                    raise
                return True
            self.interp.tick()
            return False
        return f

    def s_WhileStatement(self, n, label=None):
        t, b = self.expr(n["test"]), self.once(self.stmt(n["body"]), label)

        def f(env):
            while truthy(t(env)):
                if b(env):
                    break
        return f

    def s_DoWhileStatement(self, n, label=None):
        t, b = self.expr(n["test"]), self.once(self.stmt(n["body"]), label)

        def f(env):
            while True:
                if b(env) or not truthy(t(env)):
                    break
        return f

    def s_ForStatement(self, n, label=None):
        init = n["init"]
        lex = []
        if init and init["type"] == "VariableDeclaration":
            i = self.s_VariableDeclaration(init)
            if init["kind"] != "var":
                lex = [(x, init["kind"] == "const") for d in init["declarations"] for x in self.names(d["id"])]
        else:
            i = self.expr(init) if init else None
        t = self.expr(n["test"]) if n["test"] else None
        u = self.expr(n["update"]) if n["update"] else None
        b = self.once(self.stmt(n["body"]), label)

        def f(env):
            e = Env(env)
            for x, c in lex:
                e.vars[x] = Ref(HOLE, c)
            if i:
                i(e)
            while t is None or truthy(t(e)):
                if b(e):
                    break
                if lex:  # a fresh binding for each turn
                    e2 = Env(env)
                    for x, c in lex:
                        e2.vars[x] = Ref(e.vars[x].v, c)
                    e = e2
                if u:
                    u(e)
        return f

    def s_ForOfStatement(self, n, label=None, keys=False):
        left = n["left"]
        if left["type"] == "VariableDeclaration":
            names = self.names(left["declarations"][0]["id"]) if left["kind"] != "var" else []
            p = self.pattern(left["declarations"][0]["id"], left["kind"] != "var")
        else:
            names, p = [], self.pattern(left, False)
        r, b = self.expr(n["right"]), self.once(self.stmt(n["body"]), label)

        def f(env):
            v = r(env)
            if keys:
                xs = [] if v is U or v is None else v.keys() if isinstance(v, JSObject) else [str(i) for i in range(len(v))]
            else:
                xs = iterate(v)
            for x in xs:
                e = Env(env)
                for nm in names:
                    e.vars[nm] = Ref(HOLE)
                p(e, x)
                if b(e):
                    break
        return f

    def s_ForInStatement(self, n, label=None):
        return self.s_ForOfStatement(n, label, keys=True)

    def s_SwitchStatement(self, n):
        d = self.expr(n["discriminant"])
        h = self.hoist([s for c in n["cases"] for s in c["consequent"]], False)
        cases = [(self.expr(c["test"]) if c["test"] else None, [self.stmt(s) for s in c["consequent"]]) for c in n["cases"]]

        def f(env):
            v = d(env)
            e = Env(env)
            self.enter(e, h)
            start = None
            for i, (t, _) in enumerate(cases):
                if t is not None and truthy(strict_eq(v, t(e))):
                    start = i
                    break
            if start is None:
                start = next((i for i, (t, _) in enumerate(cases) if t is None), None)
            if start is None:
                return
            try:
                for _, ss in cases[start:]:
                    for s in ss:
                        s(e)
            except _Break as b:
                if b.label is not None:
                    raise
        return f

    # modules
    def s_ImportDeclaration(self, n):
        return lambda env: None

    def s_ExportNamedDeclaration(self, n):
        return self.stmt(n["declaration"]) if n["declaration"] else (lambda env: None)

    def s_ExportDefaultDeclaration(self, n):
        d = n["declaration"]
        if d["type"] in ("FunctionDeclaration", "ClassDeclaration"):
            e = self.function(d) if d["type"] == "FunctionDeclaration" else self.e_ClassExpression(d)
        else:
            e = self.expr(d)

        def f(env):
            env.vars["*default*"] = Ref(e(env))
        return f


LOOPS = {"ForStatement", "ForOfStatement", "ForInStatement", "WhileStatement", "DoWhileStatement"}


class _Short(Exception):
    """End of an optional chain."""


class Globals:
    """The global object: built-ins and what the host provides."""

    def __init__(self, interp):
        self.i = interp
        self.d = {}

    def lookup(self, name):
        v = self.d.get(name, HOLE)
        w = self.d.get("window")
        if v is HOLE and w is not None and (name in w.known or w.has(name)):
            v = w.get(name)
        return v

    def assign(self, name, v):
        if name in self.d:
            self.d[name] = v
            return True
        return False


class Module:
    def __init__(self, path):
        self.path, self.env, self.exports = path, None, {}


_PARSED = {}
CALLED = set()  # (file, function) run so far


def parse_files(paths):
    """Syntax trees of files, by acorn."""
    todo = {}
    for p in paths:
        try:
            with open(p, encoding="utf-8") as f:
                s = f.read()
        except OSError:
            continue
        if (p, s) not in _PARSED:
            todo[p] = s
    if todo:
        out = subprocess.run(["node", os.path.join(os.path.dirname(os.path.abspath(__file__)), "parse.cjs")],
                             input=json.dumps(todo), capture_output=True, text=True, timeout=120)
        if out.returncode:
            raise RuntimeError("node: " + out.stderr[-400:])
        for p, t in json.loads(out.stdout).items():
            _PARSED[p, todo[p]] = t


def parsed(path):
    with open(path, encoding="utf-8") as f:
        s = f.read()
    if (path, s) not in _PARSED:
        parse_files([path])
    return _PARSED[path, s]


class Interp:
    def __init__(self, resolve):
        """resolve: module specifier -> path of the file."""
        self.resolve, self.loop = resolve, Loop()
        self.modules, self.depth, self.ticks = {}, 0, 0
        self.globals = Globals(self)
        self.compiler = Compiler(self)
        self.log = []
        install(self)

    def tick(self):
        self.ticks += 1
        if self.ticks > 200000:
            raise error("RangeError", "the loop does not end")

    def module(self, spec):
        path = self.resolve(spec)
        if path in self.modules:
            return self.modules[path]
        if path is None or not os.path.exists(path):
            raise error("TypeError", f"Failed to fetch dynamically imported module: {spec}")
        ast = parsed(path)
        if "error" in ast:
            raise error("SyntaxError", ast["error"])
        m = self.modules[path] = Module(path)
        env = Env(None, U)
        env.glob = self.globals
        m.env = env
        body = ast["body"]
        for s in body:  # imports first
            if s["type"] == "ImportDeclaration":
                dep = self.module(s["source"]["value"])
                for sp in s["specifiers"]:
                    local = sp["local"]["name"]
                    if sp["type"] == "ImportNamespaceSpecifier":
                        env.vars[local] = Ref(self.space(dep))
                    else:
                        name = "default" if sp["type"] == "ImportDefaultSpecifier" else sp["imported"].get("name", sp["imported"].get("value"))
                        if name not in dep.exports:
                            raise error("SyntaxError", f"The requested module does not provide an export named '{name}'")
                        env.vars[local] = Ref(alias=dep.exports[name])
            elif s["type"] == "ExportDefaultDeclaration":
                m.exports["default"] = lambda: env.vars["*default*"]
            elif s["type"] == "ExportAllDeclaration":
                dep = self.module(s["source"]["value"])
                m.exports.update({k: v for k, v in dep.exports.items() if k != "default"})
            elif s["type"] == "ExportNamedDeclaration":
                d = s["declaration"]
                if d:
                    names = [d["id"]["name"]] if "id" in d and d["id"] else [x for q in d["declarations"] for x in self.compiler.names(q["id"])]
                    for x in names:
                        m.exports[x] = lambda x=x: env.ref(x)
                elif s["source"]:
                    dep = self.module(s["source"]["value"])
                    for sp in s["specifiers"]:
                        m.exports[sp["exported"]["name"]] = dep.exports[sp["local"]["name"]]
                else:
                    for sp in s["specifiers"]:
                        m.exports[sp["exported"]["name"]] = lambda x=sp["local"]["name"]: env.ref(x)
        rest = [s for s in body if s["type"] not in ("ExportAllDeclaration",)]
        self.compiler.path = os.path.basename(path)
        run = self.compiler.block(rest, True)
        run(env, False)
        return m

    def space(self, m):
        o = JSObject()
        for k, ref in m.exports.items():
            o.props[k] = Accessor(JSFunction(k, lambda this, a, ref=ref: ref().v))
        return o

    def namespace(self, spec):
        return self.space(self.module(spec))


def install(it):
    """Built-in globals."""
    g = it.globals.d
    fn = lambda name, f, cons=None: JSFunction(name, f, cons)

    def ns(name, d):
        o = fn(name, lambda this, a: U)
        for k, f in d.items():
            o.props[k] = fn(k, f) if callable(f) and not isinstance(f, JSObject) else f
        g[name] = o
        return o

    def log(this, a):
        return U

    g["console"] = JSObject({k: fn(k, log) for k in ("log", "warn", "error", "info", "debug")})

    def from_(this, a):
        src = a[0]
        if isinstance(src, JSObject) and not isinstance(src, (JSArray, JSMap)) and not hasattr(src, "items_"):
            n = int(to_num(src.get("length"))) if src.has("length") else 0
            xs = [src.get(str(i)) for i in range(n)]
        else:
            xs = iterate(src)
        if len(a) > 1 and isinstance(a[1], JSFunction):
            xs = [call(a[1], U, [x, i]) for i, x in enumerate(xs)]
        return JSArray(xs)

    arr = ns("Array", {"from": from_, "of": lambda this, a: JSArray(a), "isArray": lambda this, a: isinstance(a[0], JSArray)})

    def mkarray(a):
        return JSArray([U] * a[0]) if len(a) == 1 and isinstance(a[0], int) else JSArray(a)
    arr.construct = mkarray
    arr.fn = lambda this, a: mkarray(a)
    arr.props["prototype"] = JSObject({k: fn(k, f) for k, f in ARRAY.items()})

    def assign(this, a):
        for s in a[1:]:
            if isinstance(s, JSObject):
                for k in s.keys():
                    a[0].set(k, s.get(k))
        return a[0]

    obj = ns("Object", {
        "keys": lambda this, a: JSArray(a[0].keys()),
        "values": lambda this, a: JSArray(a[0].get(k) for k in a[0].keys()),
        "entries": lambda this, a: JSArray(JSArray([k, a[0].get(k)]) for k in a[0].keys()),
        "assign": assign, "freeze": lambda this, a: a[0],
        "fromEntries": lambda this, a: JSObject({key_of(get(p, "0")): get(p, "1") for p in iterate(a[0])}),
        "create": lambda this, a: JSObject(proto=a[0] if isinstance(a[0], JSObject) else None),
        "is": lambda this, a: strict_eq(a[0], a[1]),
        "hasOwn": lambda this, a: key_of(a[1]) in a[0].keys(),
    })
    obj.construct = lambda a: JSObject()

    def m_minmax(big):
        def f(this, a):
            if not a:
                return -math.inf if big else math.inf
            r = to_num(a[0])
            for x in a[1:]:
                x = to_num(x)
                if not symbolic(r, x) and (x != x or r != r):
                    return math.nan
                if truthy(compare(">" if big else "<", x, r)):
                    r = x
            return r
        return f

    def m_abs(this, a):
        v = to_num(a[0])
        if symbolic(v):
            return arith("*", -1, v) if truthy(compare("<", v, 0)) else v
        return abs(v)

    def m_round(v):
        if not symbolic(v):
            return math.floor(v + 0.5)
        import z3

        return SymNum(z3.ToReal(z3.ToInt(SymNum.of(v) + z3.RealVal("1/2"))))

    def m_sign(v):
        if truthy(compare(">", v, 0)):
            return 1
        return -1 if truthy(compare("<", v, 0)) else 0

    def m_sqrt(v):
        if symbolic(v):
            raise Unsupported("root of a symbolic number")
        return norm(math.sqrt(v)) if v >= 0 else math.nan

    def m_floor(f):
        def g(this, a):
            v = to_num(a[0])
            if symbolic(v):
                import z3

                x = SymNum.of(v)
                if f is math.floor:
                    return SymNum(z3.ToReal(z3.ToInt(x)))
                if f is math.ceil:
                    return SymNum(-z3.ToReal(z3.ToInt(-x)))
                if f is math.trunc:
                    return SymNum(z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x))))
                return f(v)
            return v if v != v or math.isinf(v) else f(v)
        return g

    ns("Math", {
        "max": m_minmax(True), "min": m_minmax(False), "abs": m_abs,
        "floor": m_floor(math.floor), "ceil": m_floor(math.ceil), "trunc": m_floor(math.trunc),
        "round": m_floor(m_round), "sign": m_floor(m_sign),
        "sqrt": m_floor(m_sqrt),
        "pow": lambda this, a: arith("**", a[0], a[1]),
    })
    g["Math"].props["PI"] = math.pi

    def parse_int(this, a):
        m = re.match(r"\s*([+-]?\d+)", to_str(a[0]))
        return int(m.group(1)) if m else math.nan

    def parse_float(this, a):
        m = re.match(r"\s*([+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?)", to_str(a[0]), re.I)
        return norm(float(m.group(1))) if m else math.nan

    isnan = lambda this, a: (lambda v: not symbolic(v) and v != v)(to_num(arg(a, 0)))
    isfin = lambda this, a: (lambda v: symbolic(v) or math.isfinite(v))(to_num(arg(a, 0)))
    num = ns("Number", {"parseInt": parse_int, "parseFloat": parse_float, "isNaN": isnan, "isFinite": isfin,
                        "isInteger": lambda this, a: isinstance(a[0], int) and not isinstance(a[0], bool)})
    num.fn = lambda this, a: to_num(arg(a, 0, 0))
    g.update({"parseInt": fn("parseInt", parse_int), "parseFloat": fn("parseFloat", parse_float),
              "isNaN": fn("isNaN", isnan), "isFinite": fn("isFinite", isfin), "NaN": math.nan, "Infinity": math.inf})
    ns("String", {"fromCharCode": lambda this, a: "".join(chr(int(x)) for x in a)}).fn = lambda this, a: to_str(arg(a, 0, ""))
    g["Boolean"] = fn("Boolean", lambda this, a: truthy(arg(a, 0)))
    g["RegExp"] = fn("RegExp", lambda this, a: JSRegex(to_str(a[0]), to_str(arg(a, 1, ""))), lambda a: JSRegex(a[0].source if isinstance(a[0], JSRegex) else to_str(a[0]), to_str(arg(a, 1, ""))))

    def mk_error(kind):
        def mk(a):
            return JSObject({"name": kind, "message": to_str(arg(a, 0, "")), "@@error": kind, "stack": ""})
        return fn(kind, lambda this, a: mk(a), mk)
    for k in ("Error", "TypeError", "RangeError", "SyntaxError"):
        g[k] = mk_error(k)

    def mk_set(a):
        s = JSMap(True)
        for x in iterate(a[0]) if a and a[0] is not U and a[0] is not None else []:
            s.d.setdefault(s.key(x), (x, x))
        return s

    def mk_map(a):
        s = JSMap()
        for p in iterate(a[0]) if a and a[0] is not U and a[0] is not None else []:
            s.d[s.key(get(p, "0"))] = (get(p, "0"), get(p, "1"))
        return s
    g["Set"], g["Map"] = fn("Set", mk_set, mk_set), fn("Map", mk_map, mk_map)
    g["WeakMap"], g["WeakSet"] = fn("WeakMap", mk_map, mk_map), fn("WeakSet", mk_set, mk_set)

    def mk_promise(a):
        p = Promise(it.loop)
        try:
            call(a[0], U, [fn("resolve", lambda this, b: p.resolve(arg(b, 0)) or U), fn("reject", lambda this, b: p.reject(arg(b, 0)) or U)])
        except JSThrow as t:
            p.reject(t.value)
        return p

    def settled(state):
        def f(this, a):
            p = Promise(it.loop)
            (p.resolve if state else p.reject)(arg(a, 0))
            return p
        return f

    def p_all(settle):
        def f(this, a):
            xs = [x if isinstance(x, Promise) else settled(True)(U, [x]) for x in iterate(a[0])]
            p = Promise(it.loop)
            out, left = [U] * len(xs), [len(xs)]
            if not xs:
                p.resolve(JSArray([]))

            def done(i, v):
                out[i] = v
                left[0] -= 1
                if not left[0]:
                    p.resolve(JSArray(out))
            for i, x in enumerate(xs):
                if settle:
                    x.then(lambda v, i=i: done(i, JSObject({"status": "fulfilled", "value": v})),
                           lambda v, i=i: done(i, JSObject({"status": "rejected", "reason": v})))
                else:
                    x.then(lambda v, i=i: done(i, v), p.reject)
            return p
        return f
    pr = ns("Promise", {"resolve": settled(True), "reject": settled(False), "all": p_all(False), "allSettled": p_all(True)})
    pr.construct = mk_promise

    def timeout(this, a):
        f, rest = a[0], a[2:]
        return it.loop.add_timer(lambda: call(f, U, rest), to_num(arg(a, 1, 0)))

    def clear(this, a):
        it.loop.timers = [t for t in it.loop.timers if t[0] != arg(a, 0)]
        return U
    g["setTimeout"], g["clearTimeout"] = fn("setTimeout", timeout), fn("clearTimeout", clear)
    g["queueMicrotask"] = fn("queueMicrotask", lambda this, a: it.loop.micro.append(lambda: call(a[0], U, [])) or U)
    g["requestAnimationFrame"] = fn("requestAnimationFrame", lambda this, a: it.loop.tasks.append(lambda: call(a[0], U, [0])) or 1)

    def parse_json(this, a):
        conv = lambda v: JSArray(map(conv, v)) if isinstance(v, list) else JSObject({k: conv(x) for k, x in v.items()}) if isinstance(v, dict) else v
        try:
            return conv(json.loads(to_str(a[0])))
        except ValueError as e:
            raise error("SyntaxError", str(e))

    def str_json(this, a):
        conv = lambda v: [conv(x) for x in v.a] if isinstance(v, JSArray) else {k: conv(v.get(k)) for k in v.keys()} if isinstance(v, JSObject) else None if v is U else v
        return json.dumps(conv(a[0]), separators=(",", ":"))
    g["JSON"] = JSObject({"parse": fn("parse", parse_json), "stringify": fn("stringify", str_json)})
    g["encodeURIComponent"] = fn("encodeURIComponent", lambda this, a: __import__("urllib.parse").parse.quote(to_str(a[0]), safe="!'()*-._~"))
    g["decodeURIComponent"] = fn("decodeURIComponent", lambda this, a: __import__("urllib.parse").parse.unquote(to_str(a[0])))
