"""Forking symbolic execution engine.

The code under test runs natively in CPython.  Symbolic data enter it in three forms:

* symbolic characters: private-use code points (U+E000..U+F8FF) inside ordinary `str`
  objects, each standing for a z3 integer variable constrained to a finite alphabet;
* SymBool: a z3 boolean whose `__bool__` forks the path;
* SymInt: an `int` subclass carrying a z3 integer.

A path is identified by its list of decisions.  Paths are explored by re-execution; the
solver decides which sides of every branch are feasible, and whether a checked assertion
can fail under the current path condition.
"""

import time

import z3

PUA_LO, PUA_HI = 0xE000, 0xF8FF


class PathAbort(BaseException):
    """Terminates the current path (infeasible assumption, limits)."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class HarnessStop(BaseException):
    """Normal early end of a path, requested by the harness."""


class SymChar:
    __slots__ = ("code", "expr", "dom", "name")

    def __init__(self, code, expr, dom, name):
        self.code, self.expr, self.dom, self.name = code, expr, dom, name


class Engine:
    """State of one exploration (one process)."""

    def __init__(self, query_timeout_ms=8000, max_branches=6000):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_timeout_ms)
        self.max_branches = max_branches
        self.stats = {
            "queries": 0,
            "solver_s": 0.0,
            "unknown": 0,
            "forks": 0,
            "branches": 0,
            "asserts_checked": 0,
            "asserts_symbolic": 0,
        }
        self.reset([])

    # -- path life cycle ---------------------------------------------------------
    def reset(self, prefix):
        self.solver.reset()
        self.prefix = prefix
        self.decisions = []
        self.new_alternatives = []
        self.chars = {}
        self.next_code = PUA_LO
        self.vars = {}  # name -> ("char"|"int"|"bool"|"choice", z3 expr)
        self.model = None
        self.memo = {}
        self.keep = []
        self.incomplete = []
        self.candidates = []
        self.reached = set()
        self.notes = {}
        self.active = True

    # -- solver ---------------------------------------------------------------------
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown"] += 1
            self.incomplete.append("solver-unknown")
        return r

    def _model_says(self, expr):
        if self.model is None:
            return None
        v = self.model.eval(expr, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def add(self, expr):
        self.solver.add(expr)
        if self.model is not None and self._model_says(expr) is not True:
            self.model = None

    def assume(self, cond):
        """Constrain the path; abort it if that is infeasible."""
        if isinstance(cond, SymBool):
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                return
            if len(self.decisions) < len(self.prefix):
                self.add(e)
                return
            self.add(e)
            if z3.is_false(e) or (
                self._model_says(e) is not True and self._check() == z3.unsat
            ):
                raise PathAbort("assume")
            return
        if not cond:
            raise PathAbort("assume")

    def branch(self, expr):
        """Decide a z3 boolean on this path, forking when both sides are feasible."""
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        key = expr.get_id()
        if key in self.memo:
            return self.memo[key]
        simp = z3.simplify(expr)
        if z3.is_true(simp):
            return True
        if z3.is_false(simp):
            return False
        self.keep.append(expr)
        pos = len(self.decisions)
        if pos > self.max_branches:
            self.incomplete.append("branch-limit")
            raise PathAbort("branch-limit")
        self.stats["branches"] += 1
        if pos < len(self.prefix):
            d = self.prefix[pos]
            if not isinstance(d, int) or d >= 16:
                self.incomplete.append("nondeterministic-replay")
                raise PathAbort("nondeterministic-replay")
            self.decisions.append(d)
            val = bool(d & 1)
            if d < 2:
                self.add(simp if val else z3.Not(simp))
            self.memo[key] = val
            return val
        neg = z3.Not(simp)
        guess = self._model_says(simp)
        model_t = self.model if guess is True else None
        can_t = guess is True
        can_f = guess is False
        if not can_t:
            r = self._check(simp)
            can_t = r != z3.unsat
            if r == z3.sat:
                model_t = self.solver.model()
        if not can_f:
            can_f = self._check(neg) != z3.unsat
        if can_t and can_f:
            self.stats["forks"] += 1
            self.new_alternatives.append(self.decisions + [0])
            self.decisions.append(1)
            self.model = model_t
            self.add(simp)
            val = True
        elif can_t:
            self.decisions.append(3)
            val = True
        elif can_f:
            self.decisions.append(2)
            val = False
        else:
            raise PathAbort("infeasible")
        self.memo[key] = val
        return val

    def pick(self, expr):
        """A feasible value of an integer expression; recorded so that re-execution of
        the path sees the same value.  Does not constrain the path."""
        pos = len(self.decisions)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            if not isinstance(d, tuple):
                self.incomplete.append("nondeterministic-replay")
                raise PathAbort("nondeterministic-replay")
            v = d[1]
        else:
            m = self.get_model()
            if m is None:
                raise PathAbort("infeasible")
            v = m.eval(expr, model_completion=True).as_long()
        self.decisions.append(("v", v))
        return v

    def choose(self, name, n, var=None):
        """An n-way choice variable, resolved immediately."""
        if n <= 1:
            self.vars[name] = ("choice", 0)
            return 0
        pos = len(self.decisions)
        e = z3.Int(name)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            if not isinstance(d, int) or d < 16:
                self.incomplete.append("nondeterministic-replay")
                raise PathAbort("nondeterministic-replay")
            v = d - 16
        else:
            v = 0
            for alt in range(1, n):
                self.new_alternatives.append(self.decisions + [16 + alt])
            self.stats["forks"] += n - 1
        self.decisions.append(16 + v)
        self.stats["branches"] += 1
        self.solver.add(e == v)
        self.model = None
        self.vars[name] = ("choice", v)
        return v

    def _fresh(self, name):
        if name in self.vars:
            raise RuntimeError(f"symbolic variable {name!r} created twice")

    # -- symbolic data -----------------------------------------------------------
    def new_char(self, name, alphabet):
        dom = frozenset(ord(c) for c in alphabet)
        e = z3.Int(name)
        self._fresh(name)
        self.vars[name] = ("char", e)
        return self._register(e, dom, name, constrain=True)

    def derived_char(self, expr, dom, name):
        return self._register(expr, frozenset(dom), name, constrain=False)

    def _register(self, e, dom, name, constrain):
        code = self.next_code
        if code > PUA_HI:
            self.incomplete.append("too-many-symbolic-chars")
            raise PathAbort("too-many-symbolic-chars")
        self.next_code += 1
        self.chars[code] = SymChar(code, e, dom, name)
        if constrain:
            c = in_set(e, dom)
            self.solver.add(c)
            self.model = None
        return chr(code)

    def new_int(self, name, lo, hi):
        e = z3.Int(name)
        self._fresh(name)
        self.vars[name] = ("int", e)
        self.solver.add(e >= lo, e <= hi)
        self.model = None
        return SymInt(e, lo)

    def new_bool(self, name):
        e = z3.Bool(name)
        self._fresh(name)
        self.vars[name] = ("bool", e)
        return SymBool(e)

    def assignment(self, model):
        out = {}
        for name, (kind, e) in self.vars.items():
            if kind == "choice":
                out[name] = e
                continue
            v = model.eval(e, model_completion=True)
            if kind == "char":
                out[name] = chr(v.as_long())
            elif kind == "int":
                out[name] = v.as_long()
            else:
                out[name] = z3.is_true(v)
        return out

    def get_model(self):
        if self.model is None:
            if self._check() != z3.sat:
                return None
            self.model = self.solver.model()
        return self.model

    def check_assert(self, cond, msg):
        """Record a candidate violation if cond can be false on this path."""
        self.stats["asserts_checked"] += 1
        if isinstance(cond, SymBool):
            e = z3.simplify(cond.e)
            if z3.is_true(e):
                return
            self.stats["asserts_symbolic"] += 1
            neg = z3.Not(e)
            if self.model is not None and self._model_says(e) is False:
                m = self.model
            else:
                r = self._check(neg)
                if r == z3.unsat:
                    return
                if r != z3.sat:
                    return
                m = self.solver.model()
            self.candidates.append((msg, self.assignment(m)))
            # continue with the side on which the assertion holds, if any
            self.add(e)
            if self._check() == z3.unsat:
                raise HarnessStop()
            return
        if not cond:
            m = self.get_model()
            if m is not None:
                self.candidates.append((msg, self.assignment(m)))
            raise HarnessStop()

    def subst(self, s, model):
        """Replace symbolic characters of a str by their values in `model`."""
        if s.isascii():
            return s
        out = []
        for ch in s:
            sc = self.chars.get(ord(ch)) if PUA_LO <= ord(ch) <= PUA_HI else None
            if sc is None:
                out.append(ch)
            else:
                out.append(chr(model.eval(sc.expr, model_completion=True).as_long()))
        return "".join(out)


ENGINE = Engine()


def in_set(e, dom):
    """z3 expression: e is one of the code points in dom (as intervals)."""
    pts = sorted(dom)
    ors = []
    i = 0
    while i < len(pts):
        j = i
        while j + 1 < len(pts) and pts[j + 1] == pts[j] + 1:
            j += 1
        if i == j:
            ors.append(e == pts[i])
        else:
            ors.append(z3.And(e >= pts[i], e <= pts[j]))
        i = j + 1
    if not ors:
        return z3.BoolVal(False)
    return ors[0] if len(ors) == 1 else z3.Or(*ors)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENGINE.branch(self.e)

    def __and__(self, o):
        return SymBool(z3.And(self.e, to_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, to_bool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, to_bool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e == to_bool(o))
        if isinstance(o, int):
            return SymInt(z3.If(self.e, 1, 0), 0) == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return repr(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)

    def _as_int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0)

    def __add__(self, o):
        return self._as_int() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._as_int() * o

    __rmul__ = __mul__


def to_bool(x):
    if isinstance(x, SymBool):
        return x.e
    return z3.BoolVal(bool(x))


def _ie(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, int):
        return z3.IntVal(int.__index__(x) if type(x) is not bool else int(x))
    return None


class SymInt(int):
    def __new__(cls, e, rep=0):
        o = int.__new__(cls, rep)
        o.e = e
        return o

    def concrete(self, limit=80):
        s = z3.simplify(self.e)
        if z3.is_int_value(s):
            return s.as_long()
        for _ in range(limit):
            v = ENGINE.pick(self.e)
            if ENGINE.branch(self.e == v):
                return v
        ENGINE.incomplete.append("concretised-int")
        raise PathAbort("concretise-limit")

    def _bin(self, o, f):
        b = _ie(o)
        if b is None:
            return NotImplemented
        return SymInt(z3.simplify(f(self.e, b)))

    def _rbin(self, o, f):
        b = _ie(o)
        if b is None:
            return NotImplemented
        return SymInt(z3.simplify(f(b, self.e)))

    def _cmp(self, o, f):
        if isinstance(o, float):
            b = z3.RealVal(o) if o == o and abs(o) != float("inf") else None
            if b is None:
                return NotImplemented
            return SymBool(f(z3.ToReal(self.e), b))
        b = _ie(o)
        if b is None:
            return NotImplemented
        return SymBool(f(self.e, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        return self._rbin(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._rbin(o, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.concrete()
        return self._bin(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple, bytes)):
            return o * self.concrete()
        return self._rbin(o, lambda a, b: a * b)

    # Python's floor division/modulo coincide with z3's for positive divisors only
    def __floordiv__(self, o):
        if isinstance(o, int) and not isinstance(o, SymInt) and o > 0:
            return self._bin(o, lambda a, b: a / b)
        return self.concrete() // (o.concrete() if isinstance(o, SymInt) else o)

    def __mod__(self, o):
        if isinstance(o, int) and not isinstance(o, SymInt) and o > 0:
            return self._bin(o, lambda a, b: a % b)
        return self.concrete() % (o.concrete() if isinstance(o, SymInt) else o)

    def __rfloordiv__(self, o):
        return o // self.concrete()

    def __rmod__(self, o):
        return o % self.concrete()

    def __truediv__(self, o):
        return self.concrete() / (o.concrete() if isinstance(o, SymInt) else o)

    def __rtruediv__(self, o):
        return o / self.concrete()

    def __neg__(self):
        return SymInt(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.If(self.e < 0, -self.e, self.e))

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __bool__(self):
        return ENGINE.branch(self.e != 0)

    def __hash__(self):
        return hash(self.concrete())

    def __int__(self):
        return self

    def __index__(self):
        return self.concrete()

    def __str__(self):
        return str(self.concrete())

    __repr__ = __str__

    def __format__(self, spec):
        return format(self.concrete(), spec)


# ---------------------------------------------------------------------------------
# symbolic characters inside ordinary strings
# ---------------------------------------------------------------------------------
def is_sym_str(s):
    """True iff the str contains a symbolic character."""
    if s.isascii():
        return False
    chars = ENGINE.chars
    if not chars:
        return False
    for ch in s:
        o = ord(ch)
        if PUA_LO <= o <= PUA_HI and o in chars:
            return True
    return False


def sym(ch):
    o = ord(ch)
    if PUA_LO <= o <= PUA_HI:
        return ENGINE.chars.get(o)
    return None


def ch_eq(a, b):
    """Equality of two one-character strings: bool or z3 expr."""
    if a == b:
        return True
    sa, sb = sym(a), sym(b)
    if sa is None and sb is None:
        return False
    if sa is None:
        sa, sb, a, b = sb, sa, b, a
    if sb is None:
        o = ord(b)
        if o not in sa.dom:
            return False
        if len(sa.dom) == 1:
            return True
        return sa.expr == o
    if not (sa.dom & sb.dom):
        return False
    return sa.expr == sb.expr


def ch_in(ch, codes):
    """Membership of a character in a set of code points: bool or z3 expr."""
    s = sym(ch)
    if s is None:
        return ord(ch) in codes
    inter = s.dom & codes
    if not inter:
        return False
    if inter == s.dom:
        return True
    return in_set(s.expr, inter)


def ch_pred(ch, pred):
    """Apply a Python predicate on concrete characters: bool or z3 expr."""
    s = sym(ch)
    if s is None:
        return bool(pred(ch))
    inter = frozenset(o for o in s.dom if pred(chr(o)))
    return ch_in(ch, inter)


def truth(x):
    if x is True or x is False:
        return x
    return ENGINE.branch(x)


def wrap(x):
    if x is True or x is False:
        return x
    return SymBool(x)


def conj(parts):
    """AND of bools / z3 exprs."""
    es = []
    for p in parts:
        if p is False:
            return False
        if p is True:
            continue
        es.append(p)
    if not es:
        return True
    return es[0] if len(es) == 1 else z3.And(*es)


def disj(parts):
    es = []
    for p in parts:
        if p is True:
            return True
        if p is False:
            continue
        es.append(p)
    if not es:
        return False
    return es[0] if len(es) == 1 else z3.Or(*es)


def s_eq(a, b):
    """String equality: bool or z3 expr."""
    if len(a) != len(b):
        return False
    if a == b:
        return True
    out = []
    for x, y in zip(a, b):
        if x == y:
            continue
        r = ch_eq(x, y)
        if r is False:
            return False
        if r is not True:
            out.append(r)
    return conj(out)


def concretise(s, why):
    """Pick one value for a symbolic string and pin it (recorded as incomplete)."""
    ENGINE.incomplete.append("concretised:" + why)
    out = []
    for ch in s:
        sc = sym(ch)
        if sc is None:
            out.append(ch)
        else:
            v = ENGINE.pick(sc.expr)
            ENGINE.add(sc.expr == v)
            out.append(chr(v))
    return "".join(out)
