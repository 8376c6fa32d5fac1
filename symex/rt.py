"""Runtime called by instrumented code (see instr.py)."""

import builtins
import collections
import functools
import itertools
import operator
import re
import types

import z3

from . import strops, symre
from .engine import (
    ENGINE,
    PathAbort,
    SymBool,
    SymInt,
    concretise,
    disj,
    is_sym_str,
    s_eq,
    sym,
    to_bool,
    truth,
    wrap,
)

FunctionType = types.FunctionType
MethodType = types.MethodType
BuiltinType = types.BuiltinFunctionType
DescrType = type(str.strip)
CALLS = collections.Counter()  # functions of the code under test that were executed


def has_sym(x, depth=3):
    if type(x) is str:
        return is_sym_str(x)
    if isinstance(x, (SymBool, SymInt)):
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(k, depth - 1) or has_sym(v, depth - 1) for k, v in x.items())
    return False


def eq(a, b):
    """a == b"""
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        if a == b:
            return True
        if a.isascii() and b.isascii():
            return False
        return wrap(s_eq(a, b))
    if (ta is list and tb is list) or (ta is tuple and tb is tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is not y and not eq(x, y):
                return False
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if not has_sym(a) and not has_sym(b):
            return a == b
        if len(a) != len(b):
            return False
        for k, v in a.items():
            k2 = dict_key(b, k)
            if k2 is MISSING or not eq(v, b[k2]):
                return False
        return True
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        if not has_sym(a) and not has_sym(b):
            return a == b
        return len(a) == len(b) and all(contains(x, b) for x in a)
    return a == b


def ne(a, b):
    r = eq(a, b)
    if isinstance(r, SymBool):
        return SymBool(z3.Not(r.e))
    if r is True or r is False:
        ta, tb = type(a), type(b)
        if ta in (str, list, tuple) and ta is tb:
            return not r
    return a != b


class _Missing:
    pass


MISSING = _Missing()


def _hash_has_sym(h):
    for k in h:
        if type(k) is str:
            if not k.isascii() and is_sym_str(k):
                return True
        elif type(k) is tuple and has_sym(k):
            return True
        elif isinstance(k, (SymInt, SymBool)):
            return True
    return False


def dict_key(d, key):
    """The key object of d equal to key (forking), or MISSING."""
    tk = type(key)
    symk = (tk is str and not key.isascii() and is_sym_str(key)) or (
        tk is tuple and has_sym(key)
    )
    if isinstance(key, (SymInt, SymBool)):
        symk = True
    if not symk and not _hash_has_sym(d):
        try:
            present = key in d
        except TypeError:
            raise
        return key if present else MISSING
    for k in list(d):
        if k is key:
            return k
    # exact (same symbolic characters) hits are certain; look for them first
    if type(key) is str:
        for k in list(d):
            if type(k) is str and k == key:
                return k
    for k in list(d):
        if type(k) is type(key) or isinstance(k, int) and isinstance(key, int):
            if eq(k, key):
                return k
    return MISSING


def contains(item, cont):
    """item in cont"""
    tc = type(cont)
    if tc is str:
        if type(item) is str and (is_sym_str(cont) or is_sym_str(item)):
            return strops.contains(cont, item)
        return item in cont
    if isinstance(cont, (dict, set, frozenset)) or tc in (
        type({}.keys()),
        types.MappingProxyType,
    ):
        if "__contains__" in tc.__dict__ and tc.__module__ != "builtins":
            return item in cont
        ti = type(item)
        symk = (ti is str and not item.isascii() and is_sym_str(item)) or (
            ti is tuple and has_sym(item)
        )
        if ti is SymInt or ti is SymBool:
            rs = [eq(k, item) for k in cont if isinstance(k, int)]
            return wrap(disj([r.e if isinstance(r, SymBool) else r for r in rs]))
        if symk and ti is str:
            # one formula instead of one fork per element
            parts = []
            for k in cont:
                if type(k) is str:
                    r = s_eq(k, item)
                    if r is True:
                        return True
                    parts.append(r)
            return wrap(disj(parts))
        if not symk and not _hash_has_sym(cont):
            return item in cont
        return dict_key(cont, item) is not MISSING
    if tc in (list, tuple, collections.deque) or tc in (type({}.values()), range):
        if type(item) is str:
            parts = []
            for k in cont:
                if k is item:
                    return True
                if type(k) is str:
                    r = s_eq(k, item)
                    if r is True:
                        return True
                    parts.append(r)
            return wrap(disj(parts))
        if tc is range and not isinstance(item, SymInt):
            return item in cont
        for k in cont:
            if k is item or eq(k, item):
                return True
        return False
    return item in cont


def not_contains(item, cont):
    r = contains(item, cont)
    if isinstance(r, SymBool):
        return SymBool(z3.Not(r.e))
    return not r


def is_(a, b):
    return a is b


def getitem(obj, key):
    t = type(obj)
    if isinstance(obj, dict):
        if "__getitem__" in t.__dict__ and t not in (
            dict,
            collections.defaultdict,
            collections.OrderedDict,
            collections.Counter,
        ):
            return obj[key]
        try:
            k = dict_key(obj, key)
        except TypeError:
            return obj[key]
        if k is MISSING:
            return obj[key]  # KeyError or __missing__
        return obj[k]
    if isinstance(key, SymInt):
        return obj[key.concrete()]
    if isinstance(key, SymBool):
        return obj[bool(key)]
    if type(key) is slice and any(
        isinstance(x, SymInt) for x in (key.start, key.stop, key.step)
    ):
        f = lambda x: x.concrete() if isinstance(x, SymInt) else x
        key = slice(f(key.start), f(key.stop), f(key.step))
    return obj[key]


def setitem(obj, key, val):
    if isinstance(obj, dict):
        k = dict_key(obj, key)
        obj[key if k is MISSING else k] = val
        return
    if isinstance(key, SymInt):
        key = key.concrete()
    obj[key] = val


def delitem(obj, key):
    if isinstance(obj, dict):
        k = dict_key(obj, key)
        del obj[key if k is MISSING else k]
        return
    if isinstance(key, SymInt):
        key = key.concrete()
    del obj[key]


def make_dict(pairs):
    d = {}
    for k, v in pairs:
        setitem(d, k, v)
    return d


def make_set(items):
    s = set()
    for x in items:
        set_add(s, x)
    return s


def set_add(s, x):
    if type(x) is str or type(x) is tuple:
        if contains(x, s):
            return
    s.add(x)


def mod(a, b):
    """a % b : string formatting needs no help (symbolic characters are characters)."""
    return a % b


# -- builtin models ------------------------------------------------------------------
def m_int(*a, **k):
    if a and type(a[0]) is str and is_sym_str(a[0]):
        return strops.to_int(*a, **k)
    if len(a) == 1 and isinstance(a[0], (SymInt,)):
        return a[0]
    if len(a) == 1 and isinstance(a[0], SymBool):
        return a[0]._as_int()
    return int(*a, **k)


def m_float(*a):
    if a and type(a[0]) is str and is_sym_str(a[0]):
        return float(strops.decide(a[0]))
    if a and isinstance(a[0], SymInt):
        return float(a[0].concrete())
    return float(*a)


def m_bool(*a):
    return bool(*a)


def m_ord(c):
    if type(c) is str and len(c) == 1:
        s = sym(c)
        if s is not None:
            return SymInt(s.expr, 0)
    return ord(c)


def m_chr(i):
    if isinstance(i, SymInt):
        return chr(i.concrete())
    return chr(i)


def m_str(*a, **k):
    return str(*a, **k)


def m_abs(x):
    return abs(x)


def _lt(a, b):
    if type(a) is str and type(b) is str and (is_sym_str(a) or is_sym_str(b)):
        return strops.lt(a, b)
    if type(a) in (list, tuple) and type(a) is type(b):
        for x, y in zip(a, b):
            if eq(x, y):
                continue
            return _lt(x, y)
        return len(a) < len(b)
    return bool(a < b)


def _minmax(pick):
    def f(*a, **k):
        if len(a) == 1:
            items = list(a[0])
            if not items and "default" in k:
                return k["default"]
        else:
            items = list(a)
        key = k.get("key")
        ks = [call(key, x) for x in items] if key else items
        if not has_sym(ks):
            return pick(*a, **k)
        best = 0
        for i in range(1, len(items)):
            if pick is min:
                if _lt(ks[i], ks[best]):
                    best = i
            elif _lt(ks[best], ks[i]):
                best = i
        return items[best]

    return f


def m_sorted(it, *, key=None, reverse=False):
    items = list(it)
    ks = [call(key, x) for x in items] if key else items
    if not has_sym(ks):
        return sorted(items, key=key, reverse=reverse)

    def cmp(i, j):
        if _lt(ks[i], ks[j]):
            return -1
        if _lt(ks[j], ks[i]):
            return 1
        return 0

    idx = sorted(range(len(items)), key=functools.cmp_to_key(cmp), reverse=reverse)
    return [items[i] for i in idx]


def m_set(*a):
    if not a:
        return set()
    items = list(a[0])
    return make_set(items) if has_sym(items) else set(items)


def m_frozenset(*a):
    return frozenset(m_set(*a))


def m_dict(*a, **k):
    if a and not isinstance(a[0], dict):
        items = list(a[0])
        if any(has_sym(p[0]) for p in items):
            d = make_dict(items)
            d.update(k)
            return d
        return dict(items, **k)
    return dict(*a, **k)


def m_fromkeys(it, value=None):
    return make_dict((x, value) for x in it)


def m_counter(*a, **k):
    if a and not isinstance(a[0], dict):
        items = list(a[0])
        if has_sym(items):
            c = collections.Counter()
            for x in items:
                kk = dict_key(c, x)
                kk = x if kk is MISSING else kk
                c[kk] = c.get(kk, 0) + 1
            return c
        return collections.Counter(items, **k)
    return collections.Counter(*a, **k)


def m_range(*a):
    return range(*[x.concrete() if isinstance(x, SymInt) else x for x in a])


def m_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def m_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def m_groupby(it, key=None):
    cur, vals, first = None, [], True
    for x in it:
        kx = call(key, x) if key else x
        if first:
            cur, vals, first = kx, [x], False
        elif eq(cur, kx):
            vals.append(x)
        else:
            yield cur, iter(vals)
            cur, vals = kx, [x]
    if not first:
        yield cur, iter(vals)


def m_sum(it, start=0):
    t = start
    for x in it:
        t = t + x
    return t


def m_isinstance(x, t):
    if type(x) is SymBool:
        ts = t if isinstance(t, tuple) else (t,)
        if bool in ts or int in ts:
            return True
    return isinstance(x, t)


def m_getattr(obj, name, *d):
    if type(name) is str and is_sym_str(name):
        name = _attr_name(obj, name)
    return getattr(obj, name, *d)


def m_hasattr(obj, name):
    if type(name) is str and is_sym_str(name):
        name = _attr_name(obj, name)
    return hasattr(obj, name)


def m_setattr(obj, name, val):
    if type(name) is str and is_sym_str(name):
        name = _attr_name(obj, name)
    return setattr(obj, name, val)


def _attr_name(obj, name):
    for n in sorted(dir(obj)):
        if eq(n, name):
            return n
    return concretise(name, "attribute-name")


def m_bytes(*a, **k):
    return bytes(*a, **k)


def _re(name, nargs_subject):
    real = getattr(re, name)
    model = getattr(symre, name)

    def f(*a, **k):
        subj = a[nargs_subject] if len(a) > nargs_subject else k.get("string")
        if type(subj) is str and is_sym_str(subj):
            try:
                return model(*a, **k)
            except (symre.Unsupported, TypeError):
                ENGINE.incomplete.append("regex-fallback")
                a = list(a)
                if len(a) > nargs_subject:
                    a[nargs_subject] = strops.decide(subj)
                else:
                    k["string"] = strops.decide(subj)
                return real(*a, **k)
        return real(*a, **k)

    return real, f


HANDLERS = {
    int: m_int,
    float: m_float,
    ord: m_ord,
    chr: m_chr,
    min: _minmax(min),
    max: _minmax(max),
    sorted: m_sorted,
    set: m_set,
    frozenset: m_frozenset,
    dict: m_dict,
    collections.Counter: m_counter,
    range: m_range,
    map: m_map,
    filter: m_filter,
    itertools.groupby: m_groupby,
    sum: m_sum,
    isinstance: m_isinstance,
    getattr: m_getattr,
    hasattr: m_hasattr,
    setattr: m_setattr,
    operator.eq: eq,
    operator.ne: ne,
    operator.contains: lambda c, i: contains(i, c),
    operator.getitem: getitem,
    operator.setitem: setitem,
}
for _n, _i in (
    ("search", 1),
    ("match", 1),
    ("fullmatch", 1),
    ("findall", 1),
    ("finditer", 1),
    ("sub", 2),
    ("subn", 2),
    ("split", 1),
):
    _r, _f = _re(_n, _i)
    HANDLERS[_r] = _f


def _list_method(self, name, a, k):
    if name in ("index", "count", "remove") and a:
        x = a[0]
        if name == "count":
            return sum(1 for y in self if y is x or eq(y, x))
        lo = a[1] if len(a) > 1 else 0
        hi = a[2] if len(a) > 2 else len(self)
        for i, y in enumerate(self[lo:hi], start=lo):
            if y is x or eq(y, x):
                if name == "index":
                    return i
                del self[i]
                return None
        raise ValueError(f"{x!r} is not in list")
    if name == "sort":
        self[:] = m_sorted(list(self), **k)
        return None
    if name == "__contains__":
        return contains(a[0], self)
    if name == "insert" and isinstance(a[0], SymInt):
        return self.insert(a[0].concrete(), a[1])
    if name == "pop" and a and isinstance(a[0], SymInt):
        return self.pop(a[0].concrete())
    return getattr(self, name)(*a, **k)


def _dict_method(self, name, a, k):
    if name in ("get", "pop", "setdefault", "__contains__", "__getitem__") and a:
        kk = dict_key(self, a[0])
        if name == "__contains__":
            return kk is not MISSING
        if name == "__getitem__":
            return getitem(self, a[0])
        if kk is not MISSING:
            return getattr(self, name)(kk, *a[1:])
        if name == "get":
            return a[1] if len(a) > 1 else None
        return getattr(self, name)(*a, **k)
    if name == "update":
        for src in a:
            items = src.items() if isinstance(src, dict) else src
            for kk, v in list(items):
                setitem(self, kk, v)
        for kk, v in k.items():
            setitem(self, kk, v)
        return None
    if name == "fromkeys":
        return m_fromkeys(*a)
    return getattr(self, name)(*a, **k)


def _set_method(self, name, a, k):
    if name == "add":
        return set_add(self, a[0])
    if name in ("discard", "remove"):
        for y in list(self):
            if y is a[0] or eq(y, a[0]):
                self.remove(y)
                return None
        if name == "remove":
            raise KeyError(a[0])
        return None
    if name == "__contains__":
        return contains(a[0], self)
    if name == "update":
        for it in a:
            for x in it:
                set_add(self, x)
        return None
    if name == "union":
        r = set(self)
        for it in a:
            for x in it:
                set_add(r, x)
        return r
    if name == "intersection":
        return {x for x in self if all(contains(x, list(it)) for it in a)}
    if name == "difference":
        return {x for x in self if not any(contains(x, list(it)) for it in a)}
    if name == "issubset":
        return all(contains(x, list(a[0])) for x in self)
    if name == "issuperset":
        return all(contains(x, self) for x in a[0])
    if name == "isdisjoint":
        return not any(contains(x, self) for x in a[0])
    return getattr(self, name)(*a, **k)


RE_METHODS = {"search", "match", "fullmatch", "findall", "finditer", "sub", "subn", "split"}


def _method(self, name, a, k):
    t = type(self)
    if t is str:
        if name in strops.METHODS and (
            not self.isascii()
            or any(type(x) is str and not x.isascii() for x in a)
            or any(isinstance(x, SymInt) for x in a)
            or (a and type(a[0]) is tuple and has_sym(a[0]))
        ):
            if is_sym_str(self) or any(has_sym(x) for x in a):
                return strops.METHODS[name](self, *a, **k)
        return getattr(self, name)(*a, **k)
    if t is list:
        return _list_method(self, name, a, k)
    if isinstance(self, dict):
        return _dict_method(self, name, a, k)
    if t is set or t is frozenset:
        return _set_method(self, name, a, k)
    if t is re.Pattern and name in RE_METHODS:
        return HANDLERS[getattr(re, name)](self, *a, **k)
    if t is tuple and name in ("index", "count"):
        return _list_method(list(self), name, a, k)
    return getattr(self, name)(*a, **k)


_SELF_TYPES = (str, list, set, frozenset, tuple, re.Pattern)


def call(f, /, *a, **k):
    t = type(f)
    if t is MethodType:
        return f(*a, **k)
    if t is FunctionType:
        h = HANDLERS.get(f)
        return f(*a, **k) if h is None else h(*a, **k)
    if t is BuiltinType:
        s = f.__self__
        if s is not None and not isinstance(s, types.ModuleType):
            ts = type(s)
            if ts in _SELF_TYPES or isinstance(s, dict):
                return _method(s, f.__name__, a, k)
            if s is dict and f.__name__ == "fromkeys":
                return m_fromkeys(*a)
            return f(*a, **k)
        h = HANDLERS.get(f)
        return f(*a, **k) if h is None else h(*a, **k)
    if t is DescrType:
        if a and type(a[0]) in _SELF_TYPES and f.__objclass__ in (
            str,
            list,
            dict,
            set,
            frozenset,
        ):
            return _method(a[0], f.__name__, a[1:], k)
        return f(*a, **k)
    if t is type:
        h = HANDLERS.get(f)
        return f(*a, **k) if h is None else h(*a, **k)
    if t is functools.partial:
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    return f(*a, **k) if h is None else h(*a, **k)


def cmp_lt(a, b):
    if type(a) is str and type(b) is str:
        return _lt(a, b)
    return a < b


def cmp_gt(a, b):
    if type(a) is str and type(b) is str:
        return _lt(b, a)
    return a > b


def cmp_le(a, b):
    if type(a) is str and type(b) is str:
        return not _lt(b, a)
    return a <= b


def cmp_ge(a, b):
    if type(a) is str and type(b) is str:
        return not _lt(a, b)
    return a >= b
