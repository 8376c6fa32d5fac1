"""Backtracking regular-expression matcher over strings with symbolic characters.

Implements Python's semantics (leftmost, backtracking order) for the constructs below;
every character test that the alphabet does not settle is a solver-decided fork.
Unsupported constructs raise Unsupported, and the caller falls back to deciding the
symbolic characters of the subject one by one.
"""

import re
import sys

try:
    from re import _constants as C
    from re import _parser as P
except ImportError:  # pragma: no cover
    import sre_constants as C
    import sre_parse as P

from .engine import ch_eq, ch_pred, disj, sym, truth

sys.setrecursionlimit(max(sys.getrecursionlimit(), 5000))


class Unsupported(Exception):
    pass


CATS = {
    C.CATEGORY_DIGIT: str.isdecimal,
    C.CATEGORY_NOT_DIGIT: lambda c: not c.isdecimal(),
    C.CATEGORY_SPACE: str.isspace,
    C.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
    C.CATEGORY_WORD: lambda c: c.isalnum() or c == "_",
    C.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == "_"),
}


class Match:
    def __init__(self, string, groups, regs, names, pattern):
        self.string, self._regs, self._names, self.re = string, regs, names, pattern
        self.pos, self.endpos = 0, len(string)
        self.lastindex = max([i for i in range(1, len(regs)) if regs[i]], default=None)

    def _idx(self, g):
        return self._names[g] if isinstance(g, str) else g

    def span(self, g=0):
        r = self._regs[self._idx(g)]
        return (-1, -1) if r is None else r

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _get(self, g, default=None):
        i = self._idx(g)
        if not 0 <= i < len(self._regs):
            raise IndexError("no such group")
        r = self._regs[i]
        return default if r is None else self.string[r[0] : r[1]]

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._get(i, default) for i in range(1, len(self._regs)))

    def groupdict(self, default=None):
        return {n: self._get(n, default) for n in self._names}

    def expand(self, template):
        return expand(template, self)

    def __bool__(self):
        return True


def expand(template, m):
    out, i = [], 0
    while i < len(template):
        c = template[i]
        if c != "\\" or i + 1 >= len(template):
            out.append(c)
            i += 1
            continue
        n = template[i + 1]
        if n.isdigit():
            j = i + 1
            while j < len(template) and j < i + 3 and template[j].isdigit():
                j += 1
            out.append(m._get(int(template[i + 1 : j])) or "")
            i = j
        elif n == "g":
            j = template.index(">", i)
            name = template[i + 3 : j]
            out.append(m._get(int(name) if name.isdigit() else name) or "")
            i = j + 1
        else:
            out.append({"n": "\n", "t": "\t", "r": "\r", "\\": "\\"}.get(n, "\\" + n))
            i += 2
    return "".join(out)


class Matcher:
    def __init__(self, pattern, flags, s):
        self.tree = P.parse(pattern, flags & ~re.DEBUG)
        self.flags = self.tree.state.flags
        if self.flags & re.IGNORECASE:
            raise Unsupported("ignorecase")
        self.ngroups = self.tree.state.groups
        self.names = dict(self.tree.state.groupdict)
        self.s = s
        self.n = len(s)

    # character tests ------------------------------------------------------------
    def _ch(self, op, av, c):
        if op is C.LITERAL:
            return ch_eq(c, chr(av))
        if op is C.NOT_LITERAL:
            return not truth(ch_eq(c, chr(av)))
        if op is C.ANY:
            if self.flags & re.DOTALL:
                return True
            return ch_pred(c, lambda x: x != "\n")
        if op is C.IN:
            items = list(av)
            neg = bool(items) and items[0][0] is C.NEGATE
            if neg:
                items = items[1:]
            tests = []
            for o, v in items:
                if o is C.LITERAL:
                    tests.append(lambda x, v=v: ord(x) == v)
                elif o is C.RANGE:
                    tests.append(lambda x, v=v: v[0] <= ord(x) <= v[1])
                elif o is C.CATEGORY:
                    tests.append(CATS[v])
                else:
                    raise Unsupported(str(o))
            return ch_pred(c, lambda x: any(t(x) for t in tests) != neg)
        raise Unsupported(str(op))

    # continuation-passing matcher: m(nodes, idx, pos, groups, k) -> result or None
    def seq(self, nodes, i, pos, groups, k):
        if i == len(nodes):
            return k(pos, groups)
        op, av = nodes[i]
        s = self.s
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos < self.n and truth(self._ch(op, av, s[pos])):
                return self.seq(nodes, i + 1, pos + 1, groups, k)
            return None
        if op is C.SUBPATTERN:
            gid, addf, delf, sub = av
            if addf or delf:
                raise Unsupported("inline flags")

            def after(p, g):
                if gid is not None:
                    g = g[:gid] + ((pos, p),) + g[gid + 1 :]
                return self.seq(nodes, i + 1, p, g, k)

            return self.seq(list(sub), 0, pos, groups, after)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(
                    list(alt), 0, pos, groups, lambda p, g: self.seq(nodes, i + 1, p, g, k)
                )
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is C.MAX_REPEAT
            if len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                return self._simple_repeat(nodes, i, pos, groups, k, lo, hi, sub[0], greedy)

            def rep(cnt, p, g):
                def again():
                    if cnt >= hi:
                        return None
                    return self.seq(
                        sub,
                        0,
                        p,
                        g,
                        lambda p2, g2: None
                        if (p2 == p and cnt >= lo)
                        else rep(cnt + 1, p2, g2),
                    )

                if cnt < lo:
                    return again()
                if greedy:
                    r = again()
                    if r is not None:
                        return r
                    return self.seq(nodes, i + 1, p, g, k)
                r = self.seq(nodes, i + 1, p, g, k)
                if r is not None:
                    return r
                return again()

            return rep(0, pos, groups)
        if op is C.AT:
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                ok = pos == 0
                if av is C.AT_BEGINNING and self.flags & re.MULTILINE and pos > 0:
                    ok = truth(ch_eq(s[pos - 1], "\n"))
            elif av is C.AT_END_STRING:
                ok = pos == self.n
            elif av is C.AT_END:
                ok = pos == self.n
                if not ok and (self.flags & re.MULTILINE or pos == self.n - 1):
                    ok = truth(ch_eq(s[pos], "\n"))
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                w = CATS[C.CATEGORY_WORD]
                a = pos > 0 and truth(ch_pred(s[pos - 1], w))
                b = pos < self.n and truth(ch_pred(s[pos], w))
                ok = (a != b) == (av is C.AT_BOUNDARY)
            else:
                raise Unsupported(str(av))
            return self.seq(nodes, i + 1, pos, groups, k) if ok else None
        if op is C.GROUPREF:
            r = groups[av]
            if r is None:
                return None
            t = s[r[0] : r[1]]
            for j, c in enumerate(t):
                if pos + j >= self.n or not truth(ch_eq(s[pos + j], c)):
                    return None
            return self.seq(nodes, i + 1, pos + len(t), groups, k)
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            sub = list(sub)
            if direction < 0:
                lo, hi = P.SubPattern(self.tree.state, sub).getwidth()
                if lo != hi:
                    raise Unsupported("lookbehind")
                st = pos - lo
                r = (
                    None
                    if st < 0
                    else self.seq(sub, 0, st, groups, lambda p, g: g if p == pos else None)
                )
            else:
                r = self.seq(sub, 0, pos, groups, lambda p, g: g)
            if op is C.ASSERT:
                return None if r is None else self.seq(nodes, i + 1, pos, r, k)
            return None if r is not None else self.seq(nodes, i + 1, pos, groups, k)
        raise Unsupported(str(op))

    def _simple_repeat(self, nodes, i, pos, groups, k, lo, hi, one, greedy):
        op, av = one
        s, n = self.s, self.n
        if greedy:
            j = pos
            while j < n and j - pos < hi and truth(self._ch(op, av, s[j])):
                j += 1
            while j - pos >= lo:
                r = self.seq(nodes, i + 1, j, groups, k)
                if r is not None:
                    return r
                j -= 1
            return None
        j = pos
        while j - pos < lo:
            if j >= n or not truth(self._ch(op, av, s[j])):
                return None
            j += 1
        while True:
            r = self.seq(nodes, i + 1, j, groups, k)
            if r is not None:
                return r
            if j >= n or j - pos >= hi or not truth(self._ch(op, av, s[j])):
                return None
            j += 1

    def match_at(self, pos, full=False):
        groups = (None,) * self.ngroups
        end = []

        def fin(p, g):
            if full and p != self.n:
                return None
            end.append(p)
            return g

        g = self.seq(list(self.tree), 0, pos, groups, fin)
        if g is None:
            return None
        p = end[-1]
        return Match(self.s, self.ngroups, ((pos, p),) + g[1:], self.names, None)

    def search(self, pos=0):
        for p in range(pos, self.n + 1):
            m = self.match_at(p)
            if m is not None:
                return m
        return None

    def finditer(self):
        pos, out, must_advance = 0, [], False
        while pos <= self.n:
            m = None
            for p in range(pos, self.n + 1):
                m = self._match_adv(p, must_advance and p == pos)
                if m is not None:
                    break
            if m is None:
                break
            out.append(m)
            must_advance = m.end() == m.start()
            pos = m.end()
        return out

    def _match_adv(self, p, must_advance):
        if not must_advance:
            return self.match_at(p)
        groups = (None,) * self.ngroups
        end = []

        def fin(q, g):
            if q == p:
                return None
            end.append(q)
            return g

        g = self.seq(list(self.tree), 0, p, groups, fin)
        if g is None:
            return None
        return Match(self.s, self.ngroups, ((p, end[-1]),) + g[1:], self.names, None)


def _pat(pattern, flags=0):
    if isinstance(pattern, re.Pattern):
        return pattern.pattern, pattern.flags & ~re.UNICODE
    return pattern, int(flags)


def search(pattern, s, flags=0):
    p, f = _pat(pattern, flags)
    return Matcher(p, f, s).search()


def match(pattern, s, flags=0):
    p, f = _pat(pattern, flags)
    return Matcher(p, f, s).match_at(0)


def fullmatch(pattern, s, flags=0):
    p, f = _pat(pattern, flags)
    return Matcher(p, f, s).match_at(0, full=True)


def finditer(pattern, s, flags=0):
    p, f = _pat(pattern, flags)
    return iter(Matcher(p, f, s).finditer())


def findall(pattern, s, flags=0):
    out = []
    for m in finditer(pattern, s, flags):
        gs = m.groups("")
        out.append(m.group(0) if not gs else gs[0] if len(gs) == 1 else gs)
    return out


def sub(pattern, repl, s, count=0, flags=0):
    return subn(pattern, repl, s, count, flags)[0]


def subn(pattern, repl, s, count=0, flags=0):
    p, f = _pat(pattern, flags)
    out, last, n = [], 0, 0
    for m in Matcher(p, f, s).finditer():
        if count and n >= count:
            break
        out.append(s[last : m.start()])
        out.append(repl(m) if callable(repl) else expand(repl, m))
        last = m.end()
        n += 1
    out.append(s[last:])
    return "".join(out), n


def split(pattern, s, maxsplit=0, flags=0):
    p, f = _pat(pattern, flags)
    out, last, n = [], 0, 0
    for m in Matcher(p, f, s).finditer():
        if maxsplit and n >= maxsplit:
            break
        out.append(s[last : m.start()])
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(s[last:])
    return out
