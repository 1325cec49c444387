"""Symbolic execution of real Python code on proxy values, decided by z3.

An `Engine` runs a harness function again and again.  Values it hands out are
proxies whose operations build z3 terms; wherever the executed code needs a
Python bool from a symbolic condition, `Engine.fork` asks the solver which
outcomes are possible under the path condition and explores every one of them
(depth first; the prefix of decisions is replayed without solver calls).
`Engine.check` asks the solver whether an assertion can fail on the path.

`Concrete` offers the same interface with the values of a solver model: it is
what replays a counterexample on unpatched code.
"""
import time
import z3

ENG = None          # the engine whose harness is running (one per process)


class Abort(BaseException):
    """The current path is infeasible or was cut (assume)."""


class Diverged(Abort):
    """The code under test did not repeat what it did on the same prefix of
    decisions (state of its own outside what is reset), or outran its time."""


class Violation(BaseException):
    def __init__(self, msg, model, detail):
        self.msg, self.model, self.detail = msg, model, detail


class Hang(BaseException):
    pass


class Unsupported(Exception):
    """A proxy cannot follow the code; never reported as a violation."""


class _D:
    __slots__ = "value", "alts", "pushed", "keep", "kind"

    def __init__(self, value, alts, pushed, keep=None, kind="f"):
        self.value, self.alts, self.pushed, self.keep, self.kind = value, alts, pushed, keep, kind


_ints = {}


def zint(name):
    v = _ints.get(name)
    if v is None:
        v = _ints[name] = z3.Int(name)
    return v


class Engine:
    symbolic = True

    def __init__(self, eager=False, deadline=None, query_ms=20000):
        self.s = z3.Solver()
        self.s.set("timeout", query_ms)
        self.eager = eager
        self.deadline = deadline
        self.stats = dict(paths=0, aborted=0, forks=0, branches=0, queries=0,
                          checks=0, proved=0, trivial=0, unknown=0, restricted=0, diverged=0,
                          solver_s=0.0)
        self.cover = {}
        self.samples = []          # models of explored paths, for validation
        self.sample_every = 0
        self.truncated = False
        self.reset = None          # puts the state of the code under test back

    # -- driver ---------------------------------------------------------
    def explore(self, fn, max_paths=None):
        """Runs fn(self) on every path; raises Violation on the first failure."""
        global ENG
        self.stack = []
        old, ENG = ENG, self
        try:
            while True:
                self._begin()
                try:
                    fn(self)
                    self.stats["paths"] += 1
                    if self.sample_every and (self.stats["paths"] - 1) % self.sample_every == 0:
                        m = self.model_of_path()
                        if m is not None:
                            self.samples.append(m)
                except Diverged:
                    self.stats["diverged"] += 1
                    self.truncated = True
                    if self.stats["diverged"] > 20:
                        return
                except Abort:
                    self.stats["aborted"] += 1
                if not self._backtrack():
                    return
                if max_paths is not None and self.stats["paths"] >= max_paths:
                    self.truncated = True
                    return
                if self.deadline is not None and time.monotonic() > self.deadline:
                    self.truncated = True
                    return
        finally:
            ENG = old

    def _begin(self):
        self.i = 0
        self.known = {}
        self.inputs = {}
        self.papps = {}
        self.keepalive = []
        self.memo = {}
        forget()
        if self.reset is not None:
            self.reset()

    def _backtrack(self):
        st = self.stack
        while st:
            d = st[-1]
            if d.pushed:
                self.s.pop()
                d.pushed = False
            if d.alts:
                d.value = d.alts.pop()
                if isinstance(d.keep, z3.ExprRef):
                    self.s.push()
                    d.pushed = True
                    self.s.add(d.keep if d.value else z3.Not(d.keep))
                return True
            st.pop()
        return False

    def _again(self, kind):
        """The decision taken here when this prefix was first executed."""
        d = self.stack[self.i]
        if d.kind != kind:
            raise Diverged
        self.i += 1
        return d

    def _query(self, *assumptions):
        t = time.perf_counter()
        if self.deadline is not None and time.monotonic() > self.deadline + 20:
            raise Diverged
        r = self.s.check(*assumptions)
        self.stats["solver_s"] += time.perf_counter() - t
        self.stats["queries"] += 1
        return r

    # -- decisions ------------------------------------------------------
    def fork(self, cond):
        if cond is True or cond is False:
            return cond
        if not isinstance(cond, SymBool):
            cond = mkbool(cond)
            if cond is True or cond is False:
                return cond
        if cond.base is not None:
            return not self.fork(cond.base)
        k = cond.k
        v = self.known.get(k)
        if v is not None:
            return v
        cond = cond.e
        self.keepalive.append(cond)
        if self.i < len(self.stack):
            d = self._again("f")
            self.known[k] = d.value
            return d.value
        self.stats["forks"] += 1
        nc = z3.Not(cond)
        rt = self._query(cond)
        if rt == z3.unsat:
            d = _D(False, None, False, None)
        else:
            rf = self._query(nc)
            if rf == z3.unsat:
                if rt == z3.unknown:
                    self.stats["unknown"] += 1
                d = _D(True, None, False, None)
            else:
                if rt == z3.unknown or rf == z3.unknown:
                    self.stats["unknown"] += 1
                self.stats["branches"] += 1
                self.s.push()
                self.s.add(cond)
                d = _D(True, [False], True, cond)
        self.stack.append(d)
        self.i += 1
        self.known[k] = d.value
        return d.value

    def choose(self, name, n):
        """An arbitrary element of range(n) (structure, not data)."""
        if n == 1:
            self.inputs[name] = 0
            return 0
        if self.i < len(self.stack):
            d = self._again("c")
            if d.value >= n:
                raise Diverged
        else:
            d = _D(0, list(range(n - 1, 0, -1)), False, None, "c")
            self.stack.append(d)
            self.i += 1
        self.inputs[name] = d.value
        return d.value

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.e
        if cond is True:
            return
        if cond is False:
            raise Abort
        if self.i < len(self.stack):
            self._again("a")
            return
        self.s.push()
        self.s.add(cond)
        d = _D(True, None, True, None, "a")
        self.stack.append(d)
        self.i += 1
        if self._query() == z3.unsat:
            raise Abort

    def concretize(self, e):
        if isinstance(e, int):
            return e
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            fresh = self.i >= len(self.stack)
            if not fresh:
                v = self._again("v").value
            else:
                r = self._query()
                if r != z3.sat:
                    if r == z3.unsat:
                        raise Abort
                    raise Unsupported("unknown while concretising")
                v = self.s.model().eval(e, model_completion=True).as_long()
                self.stack.append(_D(v, None, False, None, "v"))
                self.i += 1
            if self.fork(e == v):
                return v
            if fresh:
                raise Diverged      # the model has just said so: decided under another prefix

    # -- assertions -----------------------------------------------------
    def check(self, cond, msg, detail=None):
        if isinstance(cond, SymBool):
            cond = cond.e
        fresh = self.i >= len(self.stack)
        if fresh:
            self.stats["checks"] += 1
        if cond is True or (cond is not False and z3.is_true(cond)):
            # the path condition alone decides: still ask nothing
            if fresh:
                self.stats["trivial"] += 1
            return
        if not fresh:
            return          # decided when this prefix was first executed
        r = self._query() if cond is False else self._query(z3.Not(cond))
        if r == z3.unsat:
            self.stats["proved"] += 1
            return
        if r == z3.unknown:
            self.stats["unknown"] += 1
            return
        raise Violation(msg, self._extract(self.s.model()),
                        detail() if callable(detail) else detail)

    def reach(self, what):
        self.cover[what] = self.cover.get(what, 0) + 1

    def model_of_path(self):
        if self._query() != z3.sat:
            return None
        return self._extract(self.s.model())

    def _extract(self, m):
        out = {}
        for name, v in self.inputs.items():
            if isinstance(v, z3.ExprRef):
                out[name] = m.eval(v, model_completion=True).as_long()
            else:
                out[name] = v
        for name, apps in self.papps.items():
            t = {}
            for a, r in apps:
                a = a if isinstance(a, int) else m.eval(a, model_completion=True).as_long()
                t[str(a)] = bool(z3.is_true(m.eval(r, model_completion=True)))
            out[name] = t
        return out

    # -- inputs ---------------------------------------------------------
    def int(self, name, lo=None, hi=None):
        x = zint(name)
        self.inputs[name] = x
        if lo is not None and hi is not None:
            if lo == hi:
                self.inputs[name] = lo
                return lo
            self.assume(z3.And(x >= lo, x <= hi))
        elif lo is not None:
            self.assume(x >= lo)
        elif hi is not None:
            self.assume(x <= hi)
        return SymInt(x)

    def bool(self, name):
        x = self.int(name, 0, 1)
        return SymBool(x.e == 1)

    def token(self, name, alphabet=(1, 2, 3, 9)):
        """An arbitrary integer token; `alphabet` is used in eager mode only."""
        if self.eager:
            v = alphabet[self.choose("#" + name, len(alphabet))]
            self.inputs[name] = v
            return v
        return self.int(name)

    def pred(self, name):
        """An arbitrary predicate on integer tokens."""
        f = z3.Function(name, z3.IntSort(), z3.BoolSort())
        apps = self.papps.setdefault(name, [])

        def test(t):
            t = getattr(t, "_key", t)
            if self.eager or not isinstance(t, SymInt):
                k = (name, t)
                if self.eager:
                    if k not in self.memo:
                        self.memo[k] = bool(self.choose("#%s(%s)" % k, 2))
                    r = self.memo[k]
                    apps.append((t, z3.BoolVal(r)))
                    return r
                e = z3.IntVal(t)
            else:
                e = t.e
            key = (name, "app", e.get_id())
            r = _memo.get(key)
            if r is None:
                r = _memo[key] = mkbool(f(e))
                _alive[e.get_id()] = e
            apps.append((e, r.e))
            return r
        return test

    def stream(self, name, n, alphabet=(1, 2, 3, 9), lo=0):
        """lo..n arbitrary integer tokens."""
        toks = [self.token("%s%d" % (name, i), alphabet) for i in range(n)]
        if self.eager:
            ln = lo + self.choose("#%s.len" % name, n - lo + 1)
            self.inputs[name + ".len"] = ln
            return toks[:ln]
        return SymSeq(toks, self.int(name + ".len", lo, n))

    def string(self, name, n, hi=0x10FFFF, alphabet="ab\n c", lo=None):
        """n (or lo..n) arbitrary characters."""
        if lo is not None:
            n = lo + self.choose(name + ".len", n - lo + 1)
        if self.eager:
            cs = []
            for i in range(n):
                c = alphabet[self.choose("#%s%d" % (name, i), len(alphabet))]
                self.inputs["%s%d" % (name, i)] = ord(c)
                cs.append(c)
            return "".join(cs)
        return SymStr([self.int("%s%d" % (name, i), 0, hi) for i in range(n)], alphabet)


class Concrete:
    """The same interface, fed from a model; failures raise Violation."""
    symbolic = False
    eager = False

    def __init__(self, model):
        self.m = model
        self.cover = {}

    def int(self, name, lo=None, hi=None):
        return self.m.get(name, 0 if lo is None else lo)

    def bool(self, name):
        return bool(self.m.get(name, 0))

    def choose(self, name, n):
        return self.m.get(name, 0)

    def token(self, name, alphabet=None):
        return self.m.get(name, 0)

    def pred(self, name):
        t = self.m.get(name, {})
        return lambda x: t.get(str(getattr(x, "_key", x)), False)

    def stream(self, name, n, alphabet=None, lo=0):
        ln = self.m.get(name + ".len", lo)
        return [self.m.get("%s%d" % (name, i), 0) for i in range(ln)]

    def string(self, name, n, hi=0x10FFFF, alphabet=None, lo=None):
        if lo is not None:
            n = lo + self.choose(name + ".len", n - lo + 1)
        return "".join(chr(self.m.get("%s%d" % (name, i), 0)) for i in range(n))

    def fork(self, c):
        return bool(c)

    def assume(self, c):
        if not c:
            raise Abort

    def check(self, cond, msg, detail=None):
        if not cond:
            raise Violation(msg, self.m, detail() if callable(detail) else detail)

    def reach(self, what):
        self.cover[what] = self.cover.get(what, 0) + 1


# -- proxies ----------------------------------------------------------------

def _mk(e):
    """z3 int term -> SymInt or int."""
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _raw(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, 1, 0)
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    return None


# terms are built once: operation and operands -> result
_memo = {}
_interned = {}
_alive = {}


def forget():
    """Drops the caches when they have grown large (between paths only)."""
    _fmt_tab.clear()
    if len(_memo) > 300000 or len(_alive) > 300000:
        _memo.clear()
        _interned.clear()
        _alive.clear()


def mkbool(e):
    if e is True or e is False:
        return e
    k = e.get_id()
    r = _interned.get(k)
    if r is None:
        r = True if z3.is_true(e) else False if z3.is_false(e) else SymBool(e)
        # keep the term alive: its id is the key
        _interned[k] = r
        _alive[k] = e
    return r


class SymBool:
    """A condition; `base` is the condition it negates, if any."""
    __slots__ = "e", "k", "base"
    __hash__ = None

    def __init__(self, e):
        self.e = e
        self.k = e.get_id()
        self.base = mkbool(e.arg(0)) if z3.is_not(e) else None

    def __bool__(self):
        return ENG.fork(self)

    def _o(self, o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, bool):
            return z3.BoolVal(o)
        return None

    def __and__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else mkbool(z3.And(self.e, o))

    def __or__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else mkbool(z3.Or(self.e, o))

    def __xor__(self, o):
        o = self._o(o)
        return NotImplemented if o is None else mkbool(z3.Xor(self.e, o))
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __eq__(self, o):
        o = self._o(o)
        return False if o is None else mkbool(self.e == o)

    def __ne__(self, o):
        o = self._o(o)
        return True if o is None else mkbool(self.e != o)

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return "SymBool(%s)" % self.e


# symbolic integers inside strings: formatted as a private-use bracket
_fmt_tab = {}
L, R = "\ue000", "\ue001"


def _fmt(e):
    k = e.get_id()
    _fmt_tab[k] = e
    return "%s%d%s" % (L, k, R)


class SymInt:
    __slots__ = "e", "k"

    def __init__(self, e):
        self.e = e
        self.k = k = e.get_id()
        _alive[k] = e           # ids are cache keys: they must not be reused

    def _bin(self, o, f, name=None):
        if name is not None:
            if type(o) is SymInt:
                key = (name, self.k, None, o.k)
            elif type(o) is int:
                key = (name, self.k, o)
            else:
                key = None
            if key is not None:
                m = _memo.get(key)
                if m is None:
                    m = _memo[key] = _mk(f(self.e, o.e if type(o) is SymInt else o))
                return m
        r = _raw(o)
        if r is None:
            return NotImplemented
        return _mk(f(self.e, r))

    def __add__(self, o):
        if isinstance(o, int) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b, '+')
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, '-')

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, 'r-')

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if not isinstance(o, int) or o <= 0:
            return self.__index__() // o
        return self._bin(o, lambda a, b: a / b)

    def __mod__(self, o):
        if not isinstance(o, int) or o <= 0:
            return self.__index__() % o
        return self._bin(o, lambda a, b: a % b)

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return _mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return _mk(z3.If(self.e < 0, -self.e, self.e))

    def __invert__(self):
        return -self - 1

    def _cmp(self, o, f, name):
        if type(o) is SymInt:
            key = (name, self.k, None, o.k)
            m = _memo.get(key)
            if m is None:
                m = _memo[key] = mkbool(f(self.e, o.e))
            return m
        if type(o) is int:
            key = (name, self.k, o)
            m = _memo.get(key)
            if m is None:
                m = _memo[key] = mkbool(f(self.e, o))
            return m
        r = _raw(o)
        if r is None:
            return NotImplemented
        return mkbool(f(self.e, r))

    def __eq__(self, o):
        if o is self or (type(o) is SymInt and o.k == self.k):
            return True
        return self._cmp(o, lambda a, b: a == b, "==")

    def __ne__(self, o):
        if o is self or (type(o) is SymInt and o.k == self.k):
            return False
        return self._cmp(o, lambda a, b: z3.Not(a == b), "!=")

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(b <= a), "<")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "<=")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: z3.Not(a <= b), ">")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: b <= a, ">=")

    def __bool__(self):
        return not ENG.fork(self._cmp(0, lambda a, b: a == b, '=='))

    def __index__(self):
        return ENG.concretize(self.e)
    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        return _fmt(self.e)
    __repr__ = __str__

    def __format__(self, spec):
        if spec in ("", "d"):
            return _fmt(self.e)
        for b in (10, 100, 1000, 10**4, 10**6):
            if self < b:
                break
        return format(self.__index__(), spec)

    def __deepcopy__(self, memo):
        return self


def symlen(x):
    f = getattr(type(x), "symlen", None)
    if f is not None:
        return f(x)
    return len(x)


class SymSeq:
    """A sequence of known tokens with a symbolic length."""

    def __init__(self, toks, n):
        self.toks, self.n = toks, n

    def symlen(self):
        return self.n

    def __len__(self):
        return int(self.n)

    def __bool__(self):
        return bool(self.n > 0)

    def __getitem__(self, i):
        if isinstance(i, slice):
            n = len(self)
            return [self.toks[k] for k in range(*i.indices(n))]
        if isinstance(i, SymInt):
            i = int(i)
        if i < 0:
            i = i + len(self)
            if i < 0:
                raise IndexError("sequence index out of range")
        if not bool(self.n > i):
            raise IndexError("sequence index out of range")
        return self.toks[i]

    def __iter__(self):
        i = 0
        while bool(self.n > i):
            yield self.toks[i]
            i += 1

    def __contains__(self, x):
        return any(bool(t == x) for t in self)

    def index(self, x, start=0, stop=None):
        i = int(start)
        while bool(self.n > i) and (stop is None or i < int(stop)):
            if bool(self.toks[i] == x):
                return i
            i += 1
        raise ValueError("not in sequence")

    def count(self, x):
        return sum(1 for t in self if bool(t == x))

    def __repr__(self):
        return "SymSeq"


def _codes(s):
    if isinstance(s, SymStr):
        return s.cs
    return [ord(c) for c in s]


def _code_raw(c):
    return c.e if isinstance(c, SymInt) else c


def _eqcodes(a, b):
    cs = []
    for x, y in zip(a, b):
        r = x == y
        if r is True:
            continue
        if r is False:
            return False
        cs.append(r)
    return conj(cs)


class SymStr:
    """A string of known length whose characters are symbolic code points."""

    def __init__(self, cs, alphabet="ab\n c"):
        self.cs = list(cs)
        self.alphabet = alphabet

    def _sub(self, cs):
        if all(isinstance(c, int) for c in cs):
            return "".join(map(chr, cs))
        return SymStr(cs, self.alphabet)

    def __len__(self):
        return len(self.cs)

    def __bool__(self):
        return bool(self.cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            i = slice(*(None if x is None else int(x) for x in (i.start, i.stop, i.step)))
            return self._sub(self.cs[i])
        return self._sub([self.cs[int(i)]])

    def __iter__(self):
        for c in self.cs:
            yield self._sub([c])

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        oc = _codes(o)
        if len(oc) != len(self.cs):
            return False
        return _eqcodes(self.cs, oc)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return neg(r)

    def __hash__(self):
        return hash(str(self))

    def __add__(self, o):
        return self._sub(self.cs + _codes(o))

    def __radd__(self, o):
        return self._sub(_codes(o) + self.cs)

    def __lt__(self, o):
        return self.concrete() < (o.concrete() if isinstance(o, SymStr) else o)

    def __contains__(self, sub):
        return bool(self.find(sub) >= 0)

    def splitlines(self, keepends=False):
        out, cur, i = [], [], 0
        while i < len(self.cs):
            c = self.cs[i]
            cur.append(c)
            i += 1
            if bool(_inset(c, LINEBREAKS)):
                ends = 1
                if i < len(self.cs) and bool(_eqcodes([c], [13])) and bool(_eqcodes([self.cs[i]], [10])):
                    cur.append(self.cs[i])
                    i += 1
                    ends = 2
                out.append(self._sub(cur if keepends else cur[:-ends]))
                cur = []
        if cur:
            out.append(self._sub(cur))
        return out

    def _ws(self, c, chars):
        return bool(_inclass(c, "isspace") if chars is None else _inset(c, [(x, x) for x in map(ord, str(chars))]))

    def lstrip(self, chars=None):
        i = 0
        while i < len(self.cs) and self._ws(self.cs[i], chars):
            i += 1
        return self._sub(self.cs[i:])

    def rstrip(self, chars=None):
        i = len(self.cs)
        while i > 0 and self._ws(self.cs[i - 1], chars):
            i -= 1
        return self._sub(self.cs[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip() if chars is None else r.rstrip(chars)

    def expandtabs(self, tabsize=8):
        out, col = [], 0
        for c in self.cs:
            if bool(_eqcodes([c], [9])):
                k = tabsize - col % tabsize if tabsize > 0 else 0
                out += [32] * k
                col += k
            else:
                out.append(c)
                col = 0 if bool(_inset(c, [(10, 10), (13, 13)])) else col + 1
        return self._sub(out)

    def concrete(self, extra=""):
        """Forks over the stated alphabet (a restriction, counted)."""
        out = []
        for c in self.cs:
            if isinstance(c, int):
                out.append(chr(c))
                continue
            ENG.stats["restricted"] += 1
            for a in self.alphabet + "".join(x for x in extra if x not in self.alphabet):
                if ENG.fork(c.e == ord(a)):
                    out.append(a)
                    break
            else:
                raise Abort
        return "".join(out)

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return repr(self.concrete())

    def __format__(self, spec):
        return format(self.concrete(), spec)

    # -- searching
    def _range(self, start, end):
        n = len(self.cs)

        def norm(x, d):
            if x is None:
                return d
            if isinstance(x, SymInt):
                return _mk(z3.If(x.e < 0, z3.If(x.e + n < 0, 0, x.e + n), x.e))
            return max(x + n, 0) if x < 0 else x
        return norm(start, 0), norm(end, n)

    def _hits(self, sub, start, end):
        """[(i, cond)] for every place `sub` may occur in start..end."""
        start, end = self._range(start, end)
        sc = _codes(sub)
        n = len(self.cs)
        out = []
        for i in range(0, n - len(sc) + 1):
            conds = []
            for c in (start <= i, end >= i + len(sc), _eqcodes(self.cs[i:i + len(sc)], sc)):
                if c is True:
                    continue
                if c is False:
                    break
                conds.append(c)
            else:
                c = conj(conds)
                out.append((i, True if c is True else c.e))
        return out

    def find(self, sub, start=None, end=None):
        if len(sub) == 0:
            return self.concrete().find("", *[int(x) for x in (start, end) if x is not None])
        r = z3.IntVal(-1)
        for i, c in reversed(self._hits(sub, start, end)):
            r = z3.IntVal(i) if c is True else z3.If(c, z3.IntVal(i), r)
        return _mk(r)

    def rfind(self, sub, start=None, end=None):
        if len(sub) == 0:
            return self.concrete().rfind("", *[int(x) for x in (start, end) if x is not None])
        r = z3.IntVal(-1)
        for i, c in self._hits(sub, start, end):
            r = z3.IntVal(i) if c is True else z3.If(c, z3.IntVal(i), r)
        return _mk(r)

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub, start=None, end=None):
        if len(sub) != 1:
            return self.concrete().count(sub, *[int(x) for x in (start, end) if x is not None])
        terms = [z3.IntVal(1) if c is True else z3.If(c, z3.IntVal(1), z3.IntVal(0))
                 for _, c in self._hits(sub, start, end)]
        if not terms:
            return 0
        return _mk(z3.simplify(z3.Sum(*terms)) if len(terms) > 1 else terms[0])

    def startswith(self, sub, start=0, end=None):
        if isinstance(sub, tuple):
            return any(bool(self.startswith(x, start, end)) for x in sub)
        start = 0 if start is None else int(start)
        n = len(self.cs)
        if start < 0:
            start = max(0, start + n)
        stop = n if end is None else int(end)
        if stop < 0:
            stop = max(0, stop + n)
        stop = min(stop, n)
        sc = _codes(sub)
        if start + len(sc) > stop or start > n:
            return False
        return _eqcodes(self.cs[start:start + len(sc)], sc)

    def endswith(self, sub, start=0, end=None):
        if isinstance(sub, tuple):
            return any(bool(self.endswith(x, start, end)) for x in sub)
        part = self[start:end]
        sc, pc = _codes(sub), _codes(part)
        if len(sc) > len(pc):
            return False
        return _eqcodes(pc[len(pc) - len(sc):], sc)

    def split(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) != 1:
            return self.concrete().split(sep, maxsplit)
        out, cur = [], []
        for c in self.cs:
            if maxsplit != 0 and bool(_eqcodes([c], [ord(sep)])):
                out.append(self._sub(cur))
                cur = []
                maxsplit -= 1
            else:
                cur.append(c)
        out.append(self._sub(cur))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or len(sep) != 1:
            return self.concrete().rsplit(sep, maxsplit)
        out, cur = [], []
        for c in reversed(self.cs):
            if maxsplit != 0 and bool(_eqcodes([c], [ord(sep)])):
                out.append(self._sub(cur[::-1]))
                cur = []
                maxsplit -= 1
            else:
                cur.append(c)
        out.append(self._sub(cur[::-1]))
        return out[::-1]

    def partition(self, sep):
        p = self.split(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else (p[0], "", "")

    def rpartition(self, sep):
        p = self.rsplit(sep, 1)
        return (p[0], sep, p[1]) if len(p) == 2 else ("", "", p[0])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        m = getattr("", name)       # AttributeError for what str does not have
        if name in CLASSES:
            return lambda: bool(self.cs) and conj([_inclass(c, name) for c in self.cs])

        extra = {"encode": "\xe9\u20ac\U0001f600"}.get(name, "")
        if name in ("lower", "upper", "casefold", "swapcase", "title", "capitalize"):
            extra = self.alphabet.swapcase() + "\xdf"

        def call(*a, **k):
            return getattr(self.concrete(extra), name)(*a, **k)
        if not callable(m):
            raise AttributeError(name)
        return call


LINEBREAKS = [(10, 13), (28, 30), (0x85, 0x85), (0x2028, 0x2029)]


def _inset(c, rs):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in rs)
    m = _memo.get(("set", c.k, tuple(rs)))
    if m is None:
        m = _memo["set", c.k, tuple(rs)] = mkbool(z3.Or(*[z3.And(c.e >= a, c.e <= b) for a, b in rs])) if rs else False
    return m


CLASSES = ("isalpha", "isdigit", "isdecimal", "isnumeric", "isalnum", "isspace", "isascii",
           "isprintable")
_classes = {}


def _inclass(c, name):
    if isinstance(c, int):
        return getattr(chr(c), name)()
    rs = _classes.get(name)
    if rs is None:
        rs, start = [], None
        m = getattr(str, name)
        for k in range(0x110001):
            ok = k <= 0x10FFFF and m(chr(k))
            if ok and start is None:
                start = k
            elif not ok and start is not None:
                rs.append((start, k - 1))
                start = None
        _classes[name] = rs
    m = _memo.get((name, c.k))
    if m is None:
        m = _memo[name, c.k] = mkbool(z3.Or(*[z3.And(c.e >= a, c.e <= b) for a, b in rs]))
    return m


# -- comparing outcomes -------------------------------------------------------

def conj(cs):
    """Conjunction of bools / SymBools."""
    es = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        es.append(c)
    return _nary("and", z3.And, es) if es else True


def disj(cs):
    es = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        es.append(c)
    return _nary("or", z3.Or, es) if es else False


def _nary(name, f, es):
    if len(es) == 1:
        return es[0]
    key = (name,) + tuple([c.k for c in es])
    m = _memo.get(key)
    if m is None:
        m = _memo[key] = mkbool(f(*[c.e for c in es]))
    return m


def neg(c):
    if isinstance(c, bool):
        return not c
    if c.base is not None:
        return c.base
    m = _memo.get(("not", c.k))
    if m is None:
        m = _memo["not", c.k] = mkbool(z3.Not(c.e))
    return m


def _parts(s):
    out, i = [], 0
    while True:
        j = s.find(L, i)
        if j < 0:
            if i < len(s):
                out.append(s[i:])
            return out
        if j > i:
            out.append(s[i:j])
        k = s.index(R, j)
        out.append(_fmt_tab[int(s[j + 1:k])])
        i = k + 1


def str_eq(a, b):
    """Equality of two strings that may contain formatted symbolic integers.

    Exact when both have the same shape; otherwise the integers involved are
    concretised (forking)."""
    if a == b:
        return True
    if L not in a and L not in b:
        return False
    pa, pb = _parts(a), _parts(b)
    if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) and
                                  (not isinstance(x, str) or x == y) for x, y in zip(pa, pb)):
        return conj([mkbool(x == y) for x, y in zip(pa, pb) if not isinstance(x, str)])

    def real(ps):
        return "".join(p if isinstance(p, str) else str(ENG.concretize(p)) for p in ps)
    return real(pa) == real(pb)


def same(a, b):
    """Structural equality as bool / SymBool, without forking."""
    if a is b:
        return True
    if isinstance(a, str) and isinstance(b, str):
        return str_eq(a, b)
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
            return False
        return a == b
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        if not isinstance(a, (bool, SymBool)) or not isinstance(b, (bool, SymBool)):
            return False
        return (a == b) if isinstance(a, SymBool) else (b == a)
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        return a == b
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        if isinstance(a, list) != isinstance(b, list):
            return False
        return conj([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        if not isinstance(b, dict) or a.keys() != b.keys():
            return False
        return conj([same(a[k], b[k]) for k in a])
    if type(a) is not type(b):
        return False
    if type(a).__name__ == "Opaque":
        return same(a.v, b.v)
    d = getattr(a, "__dict__", None)
    if d is not None and d:
        return same(d, b.__dict__)
    return bool(a == b)


def show(x, model=None):
    return repr(x)


class SymEnum:
    """One of a few known strings, chosen by a symbolic integer."""

    def __init__(self, v, names):
        self.v, self.names = v, tuple(names)

    def __eq__(self, o):
        if isinstance(o, SymEnum):
            if self.names == o.names:
                return self.v == o.v
            return str(self) == str(o)
        if not isinstance(o, str):
            return NotImplemented
        if o not in self.names:
            return False
        return self.v == self.names.index(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def __str__(self):
        return self.names[int(self.v)]

    def __repr__(self):
        return repr(str(self))

    def __format__(self, spec):
        return format(str(self), spec)

    def __hash__(self):
        return hash(str(self))

    # anything else: the string it is (one path for each)
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(str(self), name)

    def __len__(self):
        return len(str(self))

    def __bool__(self):
        return bool(self != "")

    def __getitem__(self, i):
        return str(self)[i]

    def __contains__(self, x):
        return str(x) in str(self)

    def __iter__(self):
        return iter(str(self))

    def __add__(self, o):
        return str(self) + str(o)

    def __radd__(self, o):
        return str(o) + str(self)

    def __lt__(self, o):
        return str(self) < str(o)

    def __le__(self, o):
        return str(self) <= str(o)

    def __gt__(self, o):
        return str(self) > str(o)

    def __ge__(self, o):
        return str(self) >= str(o)


def enum(eng, name, names):
    if eng.symbolic and not eng.eager:
        return SymEnum(eng.int(name, 0, len(names) - 1), names)
    if eng.symbolic:
        return names[eng.choose(name, len(names))]
    return names[eng.int(name, 0)]
