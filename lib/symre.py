"""Backtracking matcher for (a subset of) `re` patterns over symbolic strings.

Patterns are parsed by CPython's own regex parser; character tests become
branches of the symbolic executor.  Anything outside the subset falls back to
concretising the string and using the real engine.
"""
import re as _re
import types
import z3
from re import _parser, _constants as C
from . import symex
from .symex import SymStr, SymInt, mkbool, conj

def _ranges(pat, flags=0):
    """The code points matched by `pat`, over all of Unicode."""
    out = []
    for c in map(ord, _re.findall(pat, _ALL, flags)):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(x) for x in out]


_ALL = "".join(map(chr, range(0x110000)))


_CAT = {}
_TABLE = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D",
          C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S",
          C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}


def _cached(pat, flags):
    """The code points matched by a one-character pattern under `flags`."""
    k = (pat, flags)
    r = _CAT.get(k)
    if r is None:
        r = _CAT[k] = _ranges(pat, flags)
    return r


def _cat(cat, flags=0):
    return _cached(_TABLE[cat], flags & _re.A)


def _esc(c):
    return "\\U%08x" % c


def _inranges(c, rs):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in rs)
    key = ("in", c.k, tuple(rs))
    m = symex._memo.get(key)
    if m is not None:
        return m
    e = c.e
    cs = [e == a if a == b else z3.And(e >= a, e <= b) for a, b in rs]
    if not cs:
        return False
    m = symex._memo[key] = mkbool(cs[0] if len(cs) == 1 else z3.Or(*cs))
    return m


class _Fallback(Exception):
    pass


def _fallback():
    raise _Fallback


class SymMatch:
    def __init__(self, pat, s, pos, end, groups, lastindex):
        self.re, self.string, self.pos, self.endpos = pat, s, pos, len(s)
        self._end, self._g, self.lastindex = end, groups, lastindex
        self._start = pos

    @property
    def lastgroup(self):
        if self.lastindex is None:
            return None
        for k, v in self.re.groupindex.items():
            if v == self.lastindex:
                return k
        return None

    def _idx(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        i = self._idx(g)
        if i == 0:
            return (self._start, self._end)
        return self._g.get(i, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._one(k, default) for k in self.re.groupindex}


class SymPattern:
    def __init__(self, pat, flags=0):
        self._re = _re.compile(pat, flags)
        self.pattern, self.flags = self._re.pattern, self._re.flags
        self.groups, self.groupindex = self._re.groups, self._re.groupindex
        self._ok = not (self.flags & _re.L)
        self._tree = _parser.parse(self.pattern, self.flags)

    def __getattr__(self, name):
        return getattr(self._re, name)

    def match(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, False)

    def fullmatch(self, string, pos=0, endpos=None):
        return self._run(string, pos, endpos, True)

    def search(self, string, pos=0, endpos=None):
        if isinstance(string, str):
            return self._re.search(string, *self._args(pos, endpos))
        for i in range(int(pos), len(string) + 1):
            m = self._run(string, i, endpos, False)
            if m is not None:
                return m
        return None

    def finditer(self, string, pos=0, endpos=None):
        if isinstance(string, str):
            yield from self._re.finditer(string, *self._args(pos, endpos))
            return
        i = int(pos)
        while i <= len(string):
            m = self.search(string, i, endpos)
            if m is None:
                return
            yield m
            i = m.end() if m.end() > m.start() else m.end() + 1

    @staticmethod
    def _args(pos, endpos):
        return (int(pos),) if endpos is None else (int(pos), int(endpos))

    def _run(self, s, pos, endpos, full):
        if isinstance(s, str):
            f = self._re.fullmatch if full else self._re.match
            return f(s, *self._args(pos, endpos))
        pos = int(pos)
        n = len(s) if endpos is None else min(len(s), int(endpos))
        if not self._ok:
            return self._run(s.concrete(), pos, endpos, full)
        if n != len(s):
            s2 = s[:n]
        else:
            s2 = s
        cs = symex._codes(s2)
        if pos > n:
            return None
        try:
            r = self._seq(list(self._tree), 0, cs, pos, {}, None,
                          lambda i, g, li: (i, g, li) if not full or i == n else None)
        except _Fallback:
            return self._run(s.concrete(), pos, endpos, full)
        if r is None:
            return None
        return SymMatch(self, s, pos, r[0], r[1], r[2])

    # -- continuation-passing matcher: k(i, groups, lastindex) -> result/None
    def _seq(self, nodes, j, cs, i, g, li, k):
        if j == len(nodes):
            return k(i, g, li)
        op, av = nodes[j]

        def rest(i, g, li):
            return self._seq(nodes, j + 1, cs, i, g, li, k)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= len(cs) or not bool(self._char(op, av, cs[i])):
                return None
            return rest(i + 1, g, li)
        if op is C.SUBPATTERN:
            gid, add, rem, sub = av
            if add or rem:
                raise _Fallback

            def close(i2, g2, li2):
                if gid is None:
                    return rest(i2, g2, li2)
                g3 = dict(g2)
                g3[gid] = (i, i2)
                return rest(i2, g3, gid)
            return self._seq(list(sub), 0, cs, i, g, li, close)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self._seq(list(alt), 0, cs, i, g, li, rest)
                if r is not None:
                    return r
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if len(sub) == 1 and sub[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
                # the same, without recursion
                top = len(cs) if hi is C.MAXREPEAT else min(len(cs), i + hi)
                e = i
                if op is C.MAX_REPEAT:
                    while e < top and bool(self._char(*sub[0], cs[e])):
                        e += 1
                    for e in range(e, i + lo - 1, -1):
                        r = rest(e, g, li)
                        if r is not None:
                            return r
                    return None
                while True:
                    if e >= i + lo:
                        r = rest(e, g, li)
                        if r is not None:
                            return r
                    if e >= top or not bool(self._char(*sub[0], cs[e])):
                        return None
                    e += 1

            def rep(cnt, i, g, li):
                def more():
                    if hi is not C.MAXREPEAT and cnt >= hi:
                        return None

                    def nxt(i2, g2, li2):
                        if i2 == i and cnt >= lo:
                            return None
                        return rep(cnt + 1, i2, g2, li2)
                    return self._seq(sub, 0, cs, i, g, li, nxt)
                if cnt < lo:
                    return more()
                if op is C.MAX_REPEAT:
                    r = more()
                    return r if r is not None else rest(i, g, li)
                r = rest(i, g, li)
                return r if r is not None else more()
            return rep(0, i, g, li)
        if op is C.AT:
            n = len(cs)
            if av in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                if av is C.AT_BEGINNING and self.flags & _re.M:
                    ok = i == 0 or bool(self._char(C.LITERAL, 10, cs[i - 1]))
                else:
                    ok = i == 0
            elif av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = i > 0 and bool(_inranges(cs[i - 1], _cat(C.CATEGORY_WORD, self.flags)))
                b = i < n and bool(_inranges(cs[i], _cat(C.CATEGORY_WORD, self.flags)))
                ok = (a != b) == (av is C.AT_BOUNDARY) if n or av is C.AT_BOUNDARY else _fallback()
            elif av is C.AT_END_STRING:
                ok = i == n
            elif av is C.AT_END:
                if self.flags & _re.M:
                    ok = i == n or bool(self._char(C.LITERAL, 10, cs[i]))
                else:
                    ok = i == n or (i == n - 1 and bool(self._char(C.LITERAL, 10, cs[i])))
            else:
                raise _Fallback
            return rest(i, g, li) if ok else None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d == 1:
                r = self._seq(list(sub), 0, cs, i, g, li, lambda *a: a)
            else:
                lo, hi = sub.getwidth()
                r = None
                if i >= lo:
                    r = self._seq(list(sub), 0, cs, i - lo, g, li, lambda j, *a: (j,) + a if j == i else None)
            if op is C.ASSERT:
                return None if r is None else rest(i, r[1], r[2])
            return rest(i, g, li) if r is None else None
        if op is C.GROUPREF and not self.flags & _re.I:
            a, b = g.get(av, (-1, -1))
            if a < 0 or i + (b - a) > len(cs) or not bool(conj([x == y for x, y in zip(cs[a:b], cs[i:])])):
                return None
            return rest(i + (b - a), g, li)
        raise _Fallback

    def _char(self, op, av, c):
        if self.flags & _re.I and op is not C.ANY:
            if op is C.IN:
                src = "[%s]" % "".join("^" if o is C.NEGATE else _esc(a) if o is C.LITERAL else
                                       _esc(a[0]) + "-" + _esc(a[1]) if o is C.RANGE else _TABLE[a] for o, a in av)
            else:
                src = ("[^%s]" if op is C.NOT_LITERAL else "%s") % _esc(av)
            return _inranges(c, _cached(src, self.flags & (_re.I | _re.A)))
        if op is C.LITERAL:
            r = c == av
        elif op is C.NOT_LITERAL:
            r = c != av
        elif op is C.ANY:
            return True if self.flags & _re.S else c != 10
        else:
            negate = False
            rs = []
            for o, a in av:
                if o is C.NEGATE:
                    negate = True
                elif o is C.LITERAL:
                    rs.append((a, a))
                elif o is C.RANGE:
                    rs.append(a)
                elif o is C.CATEGORY:
                    rs.extend(_cat(a, self.flags))
                else:
                    raise _Fallback
            r = _inranges(c, rs)
            return symex.neg(r) if negate else r
        return r


class _Re(types.ModuleType):
    """Stands in for the `re` module inside the code under test."""

    def __getattr__(self, name):
        return getattr(_re, name)

    @staticmethod
    def compile(pattern, flags=0):
        if isinstance(pattern, SymPattern):
            return pattern
        if isinstance(pattern, _re.Pattern):
            return SymPattern(pattern.pattern, pattern.flags & ~_re.U)
        return SymPattern(pattern, flags)


symre = _Re("re")
