"""str methods on strings that contain symbolic characters."""

from .engine import (
    ENGINE,
    SymBool,
    SymInt,
    ch_eq,
    ch_in,
    ch_pred,
    conj,
    disj,
    in_set,
    is_sym_str,
    s_eq,
    sym,
    truth,
    wrap,
)

WS = frozenset(o for o in range(0x3100) if chr(o).isspace())


def _match_at(s, sub, i):
    """bool or z3 expr: sub occurs in s at offset i."""
    if i < 0 or i + len(sub) > len(s):
        return False
    return s_eq(s[i : i + len(sub)], sub)


def _bounds(n, start, end):
    start = 0 if start is None else start.__index__()
    end = n if end is None else end.__index__()
    if start < 0:
        start = max(0, start + n)
    if end < 0:
        end = max(0, end + n)
    return start, min(end, n)


def find(s, sub, start=None, end=None):
    a, b = _bounds(len(s), start, end)
    if not isinstance(sub, str):
        raise TypeError("must be str")
    for i in range(a, b - len(sub) + 1):
        if truth(_match_at(s, sub, i)):
            return i
    return -1


def rfind(s, sub, start=None, end=None):
    a, b = _bounds(len(s), start, end)
    for i in range(b - len(sub), a - 1, -1):
        if truth(_match_at(s, sub, i)):
            return i
    return -1


def index(s, sub, start=None, end=None):
    r = find(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def rindex(s, sub, start=None, end=None):
    r = rfind(s, sub, start, end)
    if r < 0:
        raise ValueError("substring not found")
    return r


def count(s, sub, start=None, end=None):
    a, b = _bounds(len(s), start, end)
    if sub == "":
        return s.count(sub, a, b)
    n, i = 0, a
    while i + len(sub) <= b:
        if truth(_match_at(s, sub, i)):
            n += 1
            i += len(sub)
        else:
            i += 1
    return n


def contains(s, sub):
    return wrap(disj(_match_at(s, sub, i) for i in range(len(s) - len(sub) + 1)))


def startswith(s, pre, start=None, end=None):
    a, b = _bounds(len(s), start, end)
    if isinstance(pre, tuple):
        return wrap(disj(s_eq(s[a:b][: len(p)], p) for p in pre))
    if start is not None and start > len(s):
        return False
    return wrap(s_eq(s[a:b][: len(pre)], pre))


def endswith(s, suf, start=None, end=None):
    a, b = _bounds(len(s), start, end)
    t = s[a:b]

    def one(p):
        if len(p) > len(t):
            return False
        return s_eq(t[len(t) - len(p) :], p)

    if isinstance(suf, tuple):
        return wrap(disj(one(p) for p in suf))
    return wrap(one(suf))


def replace(s, old, new, count=-1):
    count = count.__index__()
    if old == "":
        return s.replace(old, new, count)
    out, i, last, n = [], 0, 0, 0
    while i + len(old) <= len(s) and (count < 0 or n < count):
        if truth(_match_at(s, old, i)):
            out.append(s[last:i])
            out.append(new)
            i += len(old)
            last = i
            n += 1
        else:
            i += 1
    out.append(s[last:])
    return "".join(out)


def _is_ws(c):
    return ch_in(c, WS)


def _in_chars(c, chars):
    if chars is None:
        return _is_ws(c)
    return disj(ch_eq(c, x) for x in chars)


def lstrip(s, chars=None):
    i = 0
    while i < len(s) and truth(_in_chars(s[i], chars)):
        i += 1
    return s[i:]


def rstrip(s, chars=None):
    i = len(s)
    while i > 0 and truth(_in_chars(s[i - 1], chars)):
        i -= 1
    return s[:i]


def strip(s, chars=None):
    return rstrip(lstrip(s, chars), chars)


def removeprefix(s, p):
    return s[len(p) :] if truth(s_eq(s[: len(p)], p)) else s


def removesuffix(s, p):
    if p and len(p) <= len(s) and truth(s_eq(s[len(s) - len(p) :], p)):
        return s[: len(s) - len(p)]
    return s


def split(s, sep=None, maxsplit=-1):
    maxsplit = maxsplit.__index__()
    if sep is None:
        out, i, n = [], 0, len(s)
        while True:
            while i < n and truth(_is_ws(s[i])):
                i += 1
            if i >= n:
                break
            if maxsplit >= 0 and len(out) >= maxsplit:
                out.append(rstrip(s[i:]))
                break
            j = i
            while j < n and not truth(_is_ws(s[j])):
                j += 1
            out.append(s[i:j])
            i = j
        return out
    if sep == "":
        raise ValueError("empty separator")
    out, i, last = [], 0, 0
    while i + len(sep) <= len(s) and (maxsplit < 0 or len(out) < maxsplit):
        if truth(_match_at(s, sep, i)):
            out.append(s[last:i])
            i += len(sep)
            last = i
        else:
            i += 1
    out.append(s[last:])
    return out


def rsplit(s, sep=None, maxsplit=-1):
    if maxsplit < 0:
        return split(s, sep)
    parts = split(s, sep)
    if len(parts) - 1 <= maxsplit:
        return parts
    if sep is None:
        out, j = [], len(s)
        while True:
            while j > 0 and truth(_is_ws(s[j - 1])):
                j -= 1
            if j == 0:
                break
            if len(out) >= maxsplit:
                out.append(s[:j])
                break
            i = j
            while i > 0 and not truth(_is_ws(s[i - 1])):
                i -= 1
            out.append(s[i:j])
            j = i
        return out[::-1]
    out, j = [], len(s)
    i = j - len(sep)
    while i >= 0 and len(out) < maxsplit:
        if truth(_match_at(s, sep, i)):
            out.append(s[i + len(sep) : j])
            j = i
            i = j - len(sep)
        else:
            i -= 1
    out.append(s[:j])
    return out[::-1]


def partition(s, sep):
    i = find(s, sep)
    return (s, "", "") if i < 0 else (s[:i], sep, s[i + len(sep) :])


def rpartition(s, sep):
    i = rfind(s, sep)
    return ("", "", s) if i < 0 else (s[:i], sep, s[i + len(sep) :])


LINE = frozenset(map(ord, "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"))


def splitlines(s, keepends=False):
    out, i, last = [], 0, 0
    while i < len(s):
        if truth(ch_in(s[i], LINE)):
            j = i + 1
            if (
                j < len(s)
                and truth(ch_eq(s[i], "\r"))
                and truth(ch_eq(s[j], "\n"))
            ):
                j += 1
            out.append(s[last:j] if keepends else s[last:i])
            i = last = j
        else:
            i += 1
    if last < len(s):
        out.append(s[last:])
    return out


def _all_pred(name):
    def f(s):
        if not s:
            return getattr(s, name)()
        return wrap(conj(ch_pred(c, lambda x: getattr(x, name)()) for c in s))

    return f


isspace = _all_pred("isspace")
isalpha = _all_pred("isalpha")
isdigit = _all_pred("isdigit")
isdecimal = _all_pred("isdecimal")
isnumeric = _all_pred("isnumeric")
isalnum = _all_pred("isalnum")
isprintable = _all_pred("isprintable")
isascii = _all_pred("isascii")


def isupper(s):
    has = disj(ch_pred(c, str.isupper) for c in s)
    bad = disj(ch_pred(c, str.islower) for c in s)
    import z3

    h = has if not isinstance(has, bool) else z3.BoolVal(has)
    b = bad if not isinstance(bad, bool) else z3.BoolVal(bad)
    return SymBool(z3.And(h, z3.Not(b)))


def islower(s):
    has = disj(ch_pred(c, str.islower) for c in s)
    bad = disj(ch_pred(c, str.isupper) for c in s)
    import z3

    h = has if not isinstance(has, bool) else z3.BoolVal(has)
    b = bad if not isinstance(bad, bool) else z3.BoolVal(bad)
    return SymBool(z3.And(h, z3.Not(b)))


def isidentifier(s):
    if not s:
        return False
    first = ch_pred(s[0], str.isidentifier)
    return wrap(conj([first] + [ch_pred(c, lambda x: ("a" + x).isidentifier()) for c in s[1:]]))


def _map_char(c, fn, tag):
    """Character mapping; forks never: builds an If-expression."""
    import z3

    sc = sym(c)
    if sc is None:
        return fn(c)
    image = {o: fn(chr(o)) for o in sc.dom}
    if all(v == chr(o) for o, v in image.items()):
        return c
    if any(len(v) != 1 for v in image.values()):
        # length-changing case mapping: decide the value
        for o, v in sorted(image.items()):
            if truth(sc.expr == o):
                return v
    key = (tag, sc.code)
    cache = ENGINE.notes.setdefault("_charmaps", {})
    if key in cache:
        return cache[key]
    # group by offset
    offs = {}
    for o, v in image.items():
        offs.setdefault(ord(v) - o, set()).add(o)
    e = sc.expr
    for d, os_ in offs.items():
        if d:
            e = z3.If(in_set(sc.expr, os_), sc.expr + d, e)
    r = ENGINE.derived_char(e, {ord(v) for v in image.values()}, tag + ":" + sc.name)
    cache[key] = r
    return r


def lower(s):
    return "".join(_map_char(c, str.lower, "lower") for c in s)


def upper(s):
    return "".join(_map_char(c, str.upper, "upper") for c in s)


def casefold(s):
    return "".join(_map_char(c, str.casefold, "casefold") for c in s)


def swapcase(s):
    return "".join(_map_char(c, str.swapcase, "swapcase") for c in s)


def capitalize(s):
    return upper(s[:1]) + lower(s[1:])


def title(s):
    out, prev = [], False
    for c in s:
        out.append(lower(c) if prev else upper(c))
        prev = truth(ch_pred(c, str.isalpha))
    return "".join(out)


def translate(s, table):
    out = []
    for c in s:
        sc = sym(c)
        if sc is None:
            out.append(c.translate(table))
            continue
        hit = None
        for o in sorted(sc.dom):
            if chr(o).translate(table) != chr(o) and truth(sc.expr == o):
                hit = chr(o).translate(table)
                break
        out.append(c if hit is None else hit)
    return "".join(out)


def expandtabs(s, tabsize=8):
    out, col = [], 0
    for c in s:
        if truth(ch_eq(c, "\t")):
            n = tabsize - col % tabsize if tabsize > 0 else 0
            out.append(" " * n)
            col += n
        else:
            out.append(c)
            col = 0 if truth(ch_in(c, frozenset((10, 13)))) else col + 1
    return "".join(out)


def lt(a, b):
    """a < b by code point, forking per character."""
    for x, y in zip(a, b):
        if truth(ch_eq(x, y)):
            continue
        sx, sy = sym(x), sym(y)
        ex = sx.expr if sx else ord(x)
        ey = sy.expr if sy else ord(y)
        r = ex < ey
        return r if isinstance(r, bool) else truth(r)
    return len(a) < len(b)


def to_int(s, base=10):
    """int(str): digits must be decided one by one."""
    t = strip(s)
    out = []
    for c in t:
        sc = sym(c)
        if sc is None:
            out.append(c)
            continue
        for o in sorted(sc.dom):
            if truth(sc.expr == o):
                out.append(chr(o))
                break
    return int("".join(out), base)


def decide(s):
    """Decide every symbolic character of s (complete case split)."""
    out = []
    for c in s:
        sc = sym(c)
        if sc is None:
            out.append(c)
            continue
        for o in sorted(sc.dom):
            if truth(sc.expr == o):
                out.append(chr(o))
                break
        else:
            out.append(c)
    return "".join(out)


METHODS = {
    n: globals()[n]
    for n in (
        "find rfind index rindex count startswith endswith replace lstrip rstrip strip "
        "removeprefix removesuffix split rsplit partition rpartition splitlines isspace "
        "isalpha isdigit isdecimal isnumeric isalnum isprintable isascii isupper islower "
        "isidentifier lower upper casefold swapcase capitalize title translate expandtabs"
    ).split()
}
METHODS["__contains__"] = contains
METHODS["__eq__"] = lambda a, b: wrap(s_eq(a, b)) if isinstance(b, str) else NotImplemented
METHODS["__ne__"] = (
    lambda a, b: (not truth(s_eq(a, b))) if isinstance(b, str) else NotImplemented
)
