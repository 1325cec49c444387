"""Grammars as nested tuples: construction through the public API, and an
independent reference semantics (plain and recovering)."""
from collections import namedtuple
from .symex import symlen, SymStr, SymInt, same, conj, Abort

# ---------------------------------------------------------------- building


class Fn:
    """A function value produced by an operator parser."""

    def __init__(self, t):
        self.t = t

    def __call__(self, a, b):
        return ("op", self.t, a, b)


SPECIAL = {"ni": NotImplemented, "dots": ..., "stop": StopIteration(), "type": int, "nan": float("nan")}


class Opaque:
    """A value that the code under test has no business looking into."""
    __slots__ = ("v",)
    __hash__ = None

    def __init__(self, v):
        self.v = v

    def _no(self, *a):
        raise TypeError("a value was inspected")
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __len__ = __iter__ = __contains__ = _no
    __getitem__ = __int__ = __index__ = __call__ = __add__ = __radd__ = _no

    def __repr__(self):
        return "Opaque(%r)" % (self.v,)


class Falsy:
    """A callable which is false."""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Truth:
    """A truth value that is not a bool."""
    __slots__ = ("b",)
    __hash__ = None

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return bool(self.b)


ONE = Fn("one")      # one and the same function for every operator


def totuple(g):
    return tuple(totuple(x) for x in g) if isinstance(g, (list, tuple)) else g


def free(g):
    """Names of the recursion variables g leaves unbound."""
    if g[0] == "var":
        return {g[1]}
    out = set()
    for x in g[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            out |= free(x)
    return out - {g[1]} if g[0] == "rec" else out


class Builder:
    share = None        # a dict: equal grammars become one and the same parser
    truthy = False      # predicates return objects that are merely true or false

    def __init__(self, eng, rp):
        self.eng, self.rp = eng, rp
        self.vars = {}
        self.shared = {}
        self.preds = {}
        self.nums = {}

    def pred(self, name):
        p = self.preds.get(name)
        if p is None:
            p = self.preds[name] = self.eng.pred(name)
        return p

    def u(self, f, *tag):
        """Every function given to the code under test passes through here."""
        return Falsy(f) if self.odd else f

    odd = False         # functions are objects that are false

    def op(self, t):
        return self.u(Fn(t), "op", t)

    fn = False          # functions instead of methods and operators
    stream = None       # what functions of the user's are to be called with
    wrap = False        # every parser is wrapped in a parser class of the user's own

    def __call__(self, g):
        if self.share is None or free(g):
            return self.make(g)
        k = repr(g)
        p = self.share.get(k)
        if p is None:
            p = self.share[k] = self.make(g)
        return p

    def make(self, g):
        p = (getattr(self, "f_" + g[0], None) if self.fn else None) or getattr(self, "b_" + g[0])
        p = p(*g[1:])
        p = self.custom(p) if self.wrap and g[0] not in ("then", "var", "share", "custom") else p
        if self.grow and g[0] not in ("then", "var"):
            self.extend(p, g)
        return p

    grow = False        # further parsers are built from every parser, and never used

    def extend(self, p, g):
        rp, q = self.rp, self.rp.sequence.sym(777, "extended")
        for f in (lambda: p | q, lambda: q | p, lambda: p | q | q, lambda: p + q, lambda: q + p, lambda: p << q, lambda: p >> q,
                  lambda: p.many(), lambda: p.maybe(), lambda: p.attempt(), lambda: p.label("extended"), lambda: p.recover(),
                  lambda: p.recover_with(777), lambda: p.recover_with_fn(lambda s, i: 777, "extended"), lambda: p.fmap(lambda v: ("extended", v)),
                  lambda: p.fmap(lambda v: 777).fmap(lambda v: 778), lambda: p.bind(lambda v: q), lambda: p.sep_by(q), lambda: q.sep_by(p),
                  lambda: p.between(q, q), lambda: q.between(p, p), lambda: p.chainl1(q), lambda: p.chainr1(q), lambda: p.then(q),
                  lambda: p.then(q).then(q), lambda: p.then(q).apply(lambda *v: 777), lambda: rp.layout.block(p), lambda: rp.layout.aligned(p),
                  lambda: rp.layout.indented(7, p), lambda: (p | q).label("extended").maybe()):
            f()

    # primitives
    def b_sym(self, k, label=None):
        if label is None:
            return self.rp.sequence.sym(k)
        return self.rp.sequence.sym(k, label)

    def satisfy(self, f):
        return self.rp.sequence.satisfy(self.u((lambda t: Truth(f(t))) if self.truthy else f, "test"))

    def b_sat(self, name):
        return self.satisfy(self.pred(name))

    def b_any(self):
        return self.satisfy(lambda t: True)

    def b_none(self):
        return self.satisfy(lambda t: False)

    def b_not(self, k):
        return self.satisfy(lambda t: t != k)

    def b_lit(self, s):
        return self.rp.scannerless.literal(s)

    def b_re(self, pat, group=0):
        return self.rp.scannerless.regexp(pat, group)

    def b_letter(self):
        return self.rp.sequence.letter

    def b_digit(self):
        return self.rp.sequence.digit

    def b_tok(self, kind):
        return self.rp.lexer.token(kind)

    def b_tokins(self, kind, v):
        return self.rp.lexer.token_ins(kind, v)

    def b_eof(self):
        return self.rp.sequence.eof()

    def b_pure(self, v):
        return self.rp.primitive.Pure(v)

    def b_purefn(self, v):
        return self.rp.primitive.PureFn(self.u(lambda: ("fresh", v), "purefn", v))

    def b_unexp(self, l):
        return self.rp.primitive.unexpected(l)

    # combinators
    def b_fmap(self, g, tag):
        return self(g).fmap(self.u(lambda v: ("f", tag, v), "fmap", tag))

    def b_grow(self, g):
        """A user function that extends the list it is given."""
        def grow(v):
            v.append("+")
            return v
        return self(g).fmap(grow)

    def b_opq(self, g):
        return self(g).fmap(Opaque)

    def b_special(self, g, name):
        return self(g).fmap(lambda v: SPECIAL[name])

    def b_custom(self, g):
        return self.custom(self(g))

    def custom(self, p):
        """A parser class of the user's own."""
        class Custom(self.rp.TupleParser):
            def parse_fast_fn(self, stream, pos, ctx):
                return p.parse_fast_fn(stream, pos, ctx)

            def parse_fn(self, stream, pos, ctx, ins, rem):
                return p.parse_fn(stream, pos, ctx, ins, rem)

            def __len__(self):          # false, as far as that goes
                return 0
        return Custom()

    def b_fmapf(self, g, tag):
        return self.rp.fmap(self(g), self.u(lambda v: ("f", tag, v), "fmap", tag))

    def b_bind(self, g, kind, *a):
        return self(g).bind(self.u(self._bindfn(kind, *a), "bind"))

    def b_bindf(self, g, kind, *a):
        return self.rp.bind(self(g), self.u(self._bindfn(kind, *a), "bind"))

    def _bindfn(self, kind, *a):
        if kind == "same":
            return lambda v: self.rp.sequence.sym(v)
        if kind == "then":
            h = self(a[0])
            return lambda v: h.fmap(lambda w: ("b", v, w))
        if kind == "if":
            h1, h2 = self(a[1]), self(a[2])
            return lambda v: h1 if v == a[0] else h2
        if kind == "type":
            return lambda v: self.rp.primitive.Pure((type(v).__name__, v))
        raise KeyError(kind)

    def b_seq(self, a, b):
        return self(a) + self(b)

    def b_seql(self, a, b):
        return self(a) << self(b)

    def b_seqr(self, a, b):
        return self(a) >> self(b)

    def b_seqm(self, a, b):
        return self.rp.seq(self(a), self(b))

    def b_seqlm(self, a, b):
        return self(a).seql(self(b))

    def b_seqrm(self, a, b):
        return self(a).seqr(self(b))

    def b_seqlf(self, a, b):
        return self.rp.seql(self(a), self(b))

    def b_seqrf(self, a, b):
        return self.rp.seqr(self(a), self(b))

    def b_then(self, *gs):
        p = self(gs[0])
        for g in gs[1:]:
            p = p.then(self(g))
        return p

    def b_apply(self, *gs):
        return self.b_then(*gs).apply(lambda *v: ("ap",) + v)

    def b_alt(self, *gs):
        p = self(gs[0])
        for g in gs[1:]:
            p = p | self(g)
        return p

    def b_altf(self, a, b):
        return self.rp.alt(self(a), self(b))

    def b_maybe(self, g):
        return self(g).maybe()

    def b_many(self, g):
        return self(g).many()

    def b_attempt(self, g):
        return self(g).attempt()

    def b_label(self, g, l):
        return self(g).label(l)

    def b_recover(self, g):
        return self(g).recover()

    def b_rw(self, g, x, label=None):
        return self(g).recover_with(x, label) if label is not None else self(g).recover_with(x)

    def b_rwf(self, g, tag, label=None):
        fn = self.rwfn(tag)
        return self(g).recover_with_fn(fn, label) if label is not None else self(g).recover_with_fn(fn)

    def rwfn(self, tag):
        def fn(stream, pos):
            if self.stream is not None and stream is not self.stream:
                return "called with another stream"
            return ("rwf", tag, pos)
        return self.u(fn)

    # the same as functions
    def f_fmap(self, g, tag):
        return self.b_fmapf(g, tag)

    def f_bind(self, g, *a):
        return self.b_bindf(g, *a)

    def f_seq(self, a, b):
        return self.b_seqm(a, b)

    def f_seql(self, a, b):
        return self.b_seqlf(a, b)

    def f_seqr(self, a, b):
        return self.b_seqrf(a, b)

    def f_alt(self, *gs):
        p = self(gs[0])
        for g in gs[1:]:
            p = self.rp.alt(p, self(g))
        return p

    def f_maybe(self, g):
        return self.rp.maybe(self(g))

    def f_many(self, g):
        return self.rp.many(self(g))

    def f_attempt(self, g):
        return self.rp.attempt(self(g))

    def f_label(self, g, l):
        return self.rp.label(self(g), l)

    def f_recover(self, g):
        return self.rp.recover(self(g))

    def f_rw(self, g, x, label=None):
        return self.rp.recover_with(self(g), x, label) if label is not None else self.rp.recover_with(self(g), x)

    def f_rwf(self, g, tag, label=None):
        fn = self.rwfn(tag)
        return self.rp.recover_with_fn(self(g), fn, label) if label is not None else self.rp.recover_with_fn(self(g), fn)

    def f_sepby(self, g, s):
        return self.rp.sep_by(self(g), self(s))

    def f_between(self, o, c, g):
        return self.b_betweenf(o, c, g)

    def f_chainl(self, g, op):
        return self.rp.chainl1(self(g), self.rp.fmap(self(op), self.op))

    def f_chainr(self, g, op):
        return self.rp.chainr1(self(g), self.rp.fmap(self(op), self.op))

    def f_chainlc(self, g, op):
        return self.rp.chainl1(self(g), self.rp.fmap(self(op), lambda _: ONE))

    def f_chainrc(self, g, op):
        return self.rp.chainr1(self(g), self.rp.fmap(self(op), lambda _: ONE))

    def b_sepby(self, g, s):
        return self(g).sep_by(self(s))

    def b_between(self, o, c, g):
        return self(g).between(self(o), self(c))

    def b_betweenf(self, o, c, g):
        return self.rp.between(self(o), self(c), self(g))

    def b_chainl(self, g, op):
        return self(g).chainl1(self(op).fmap(self.op))

    def b_chainr(self, g, op):
        return self(g).chainr1(self(op).fmap(self.op))

    def b_chainlc(self, g, op):
        return self(g).chainl1(self(op).fmap(lambda _: ONE))

    def b_chainrc(self, g, op):
        return self(g).chainr1(self(op).fmap(lambda _: ONE))

    def b_chainlv(self, g, op, kind):
        return self(g).chainl1(self(op).fmap(lambda _: OPS[kind]))

    def b_chainrv(self, g, op, kind):
        return self(g).chainr1(self(op).fmap(lambda _: OPS[kind]))

    def b_as(self, g, x):
        return self(g).fmap(self.u(lambda _: x))

    def b_delay(self, g):
        d = self.rp.Delay()
        p = d.fmap(lambda v: v)          # built before define
        d.define(self(g))
        return p

    def b_delay2(self, g):
        d = self.rp.Delay()
        d.define(self(g))
        return d

    def b_delay3(self, g):
        d1, d2, d3 = self.rp.Delay(), self.rp.Delay(), self.rp.Delay()
        d1.define(d2)                    # defined as parsers not yet defined
        d2.define(d3)
        d3.define(self(g))
        return d1

    def b_rec(self, name, g):
        d = self.rp.Delay()
        old = self.vars.get(name)
        self.vars[name] = d
        d.define(self(g))
        self.vars[name] = old
        return d

    def b_var(self, name):
        return self.vars[name]

    def b_share(self, name, g):
        p = self.shared.get(name)
        if p is None:
            p = self.shared[name] = self(g)
        return p

    # layout
    def b_block(self, g):
        return self.rp.layout.block(self(g))

    def b_aligned(self, g):
        return self.rp.layout.aligned(self(g))

    def b_indented(self, d, g):
        return self.rp.layout.indented(self.num(d), self(g))

    def num(self, d):
        """A literal number, or the name of an arbitrary one."""
        if not isinstance(d, str):
            return d
        if d not in self.nums:
            self.nums[d] = self.eng.int(d)
        return self.nums[d]


# ---------------------------------------------------------------- reference

Ok = namedtuple("Ok", "v pos exp cons")
Err = namedtuple("Err", "pos exp cons")
Rec = namedtuple("Rec", "reps pos exp cons")
Rep = namedtuple("Rep", "cost prio ins ops v pos exp cons")
Op = namedtuple("Op", "kind arg pos exp cons")     # kind 'skip'/'ins'


class RefRuntime(Exception):
    pass


def foldl(v, call=lambda r, *c: r):
    r, tail = v
    for op, a in tail:
        r = call(("op", op, r, a), "op", op, r, a)
    return r


def foldr(v, call=lambda r, *c: r):
    first, tail = v
    if not tail:
        return first
    op, nxt = tail[0]
    r = foldr((nxt, tail[1:]), call)
    return call(("op", op, first, r), "op", op, first, r)


# operator functions with results of every sort
OPS = {"none": lambda a, b: None, "first": lambda a, b: a, "second": lambda a, b: b, "zero": lambda a, b: 0, "empty": lambda a, b: [],
       "false": lambda a, b: False, "pair": lambda a, b: (a, b), "flat": lambda a, b: (a if isinstance(a, tuple) else (a,)) + (b,),
       "list": lambda a, b: [a, b], "text": lambda a, b: "", "fn": lambda a, b: Fn("f"), "opq": lambda a, b: Opaque((a, b))}


def foldlv(v, kind):
    r, tail = v
    for op, a in tail:
        r = OPS[kind](r, a)
    return r


def foldrv(v, kind):
    first, tail = v
    xs = [first] + [a for op, a in tail]
    r = xs.pop()
    while xs:
        r = OPS[kind](xs.pop(), r)
    return r


class Ref:
    """Reference semantics over a token sequence or a string.

    Everything is immutable here; locations are plain positions."""

    def __init__(self, eng, stream, preds, col=None, remod=None, max_reps=3000, num=None,
                 mktok=None):
        self.eng, self.st, self.preds = eng, stream, preds
        self.col = col or (lambda pos: 0)
        self.vars = {}
        self.remod = remod
        self.num, self.mktok = num or (lambda d: d), mktok
        self.nreps = 0
        self.max_reps = max_reps

    # -- primitive recognisers: (matched?, value, newpos)
    def _has(self, pos):
        return bool(symlen(self.st) > pos)

    def _prim(self, g, pos):
        k = g[0]
        if k == "lit":
            s = g[1]
            if bool(self.st.startswith(s, pos)):
                return (s, pos + len(s))
            return None
        if k == "re":
            m = self.remod.compile(g[1]).match(self.st, pos)
            if m is None or m.group(g[2] if len(g) > 2 else 0) is None:
                return None
            return (m.group(g[2] if len(g) > 2 else 0), m.end())
        if not self._has(pos):
            return None
        t = self.st[pos]
        if k in ("sat", "any", "none", "not"):
            self.call(None, "test", t)
        if k == "sym":
            ok = t == g[1]
        elif k == "sat":
            ok = self.preds(g[1])(t)
        elif k == "any":
            ok = True
        elif k == "none":
            ok = False
        elif k == "not":
            ok = t != g[1]
        elif k in ("tok", "tokins"):
            ok = t.kind == g[1]
        elif k == "letter":
            ok = t.isalpha()
        elif k == "digit":
            ok = t.isdigit()
        else:
            raise KeyError(k)
        return (t, pos + 1) if bool(ok) else None

    PRIMS = ("sym", "sat", "any", "none", "not", "lit", "re", "tok", "tokins", "letter", "digit")

    def _label(self, g):
        k = g[0]
        if k == "sym":
            return (repr(g[1]) if len(g) < 3 or g[2] is None else g[2],)
        if k == "lit":
            return (repr(g[1]),)
        if k in ("tok", "tokins"):
            return (g[1],)
        if k in ("letter", "digit"):
            return (k,)
        return ()

    log = None

    def call(self, result, *c):
        """A call of a function of the user's."""
        if self.log is not None:
            self.log.append(c)
        return result

    def desugar(self, g):
        k = g[0]
        if k == "sepby":
            p, s = g[1], g[2]
            return ("map", ("maybe", ("seq", p, ("many", ("seqr", s, p)))),
                    lambda v: [] if v is None else [v[0]] + v[1])
        if k in ("between", "betweenf"):
            return ("seqr", g[1], ("seql", g[3], g[2]))
        if k == "chainl":
            return ("map", ("seq", g[1], ("many", ("seq", g[2], g[1]))), lambda v: foldl(v, self.call))
        if k in ("chainlv", "chainrv"):
            fold = {"chainlv": foldlv, "chainrv": foldrv}[k]
            return ("map", ("seq", g[1], ("many", ("seq", g[2], g[1]))), lambda v: fold(v, g[3]))
        if k == "chainr":
            return ("map", ("seq", g[1], ("many", ("seq", g[2], g[1]))), lambda v: foldr(v, self.call))
        if k == "chainlc":
            return ("map", ("seq", g[1], ("many", ("seq", ("as", g[2], "one"), g[1]))), foldl)
        if k == "chainrc":
            return ("map", ("seq", g[1], ("many", ("seq", ("as", g[2], "one"), g[1]))), foldr)
        if k == "as":
            return ("map", g[1], lambda v: g[2])
        if k == "opq":
            return ("map", g[1], Opaque)
        if k == "special":
            return ("map", g[1], lambda v: SPECIAL[g[2]])
        if k == "grow":
            return ("map", g[1], lambda v: v + ["+"])
        if k in ("then", "apply"):
            while g[1][0] == "then":        # a tuple is extended, not nested
                g = (k,) + tuple(g[1][1:]) + tuple(g[2:])
            t = ("map", g[1], lambda v: (v,))
            for h in g[2:]:
                t = ("map", ("seq", t, h), lambda v: v[0] + (v[1],))
            return ("map", t, lambda v: ("ap",) + v) if k == "apply" else t
        if k in ("fmap", "fmapf"):
            return ("map", g[1], lambda v, t=g[2]: self.call(("f", t, v), "fmap", t, v))
        if k == "alt" and len(g) > 3:
            return ("alt", g[:-1], g[-1])
        if k == "alt" and len(g) == 2:
            return g[1]
        if k == "altf":
            return ("alt",) + g[1:]
        if k in ("delay", "delay2", "delay3", "custom", "call"):
            return g[1]
        if k == "share":
            return g[2]
        if k == "rec":
            self.vars[g[1]] = g[2]
            return g[2]
        if k == "var":
            return self.vars[g[1]]
        if k.startswith("seq") and k[-1] in "mf":
            return (k[:-1],) + g[1:]
        if k == "bindf":
            return ("bind",) + g[1:]
        if k == "tokins":
            return ("rwx", ("tok", g[1]), lambda st, pos: self.mktok(g[1], g[2], pos), g[1])
        return None

    def _merge(self, k, a, b):
        return a if k == "seql" else b if k == "seqr" else (a, b)

    def _bindg(self, g, v):
        kind = g[2]
        if kind == "same":
            return ("sym", v)
        if kind == "type":
            return ("pure", (type(v).__name__, v))
        if kind == "then":
            return ("map", g[3], lambda w: ("b", v, w))
        return g[4] if bool(v == g[3]) else g[5]

    def col_ok(self, a, b):
        return bool(a == b)

    # -- plain
    def fast(self, g, pos, mark=0):
        k = g[0]
        if k in self.PRIMS and k != "tokins":
            m = self._prim(g, pos)
            if m is None:
                return Err(pos, self._label(g), False)
            v, p = m
            return Ok(v, p, (), p != pos)
        d = self.desugar(g)
        if d is not None:
            return self.fast(d, pos, mark)
        if k == "eof":
            return Err(pos, ("end of file",), False) if self._has(pos) else Ok(None, pos, (), False)
        if k == "pure":
            return Ok(g[1], pos, (), False)
        if k == "purefn":
            return Ok(self.call(("fresh", g[1]), "purefn", g[1]), pos, (), False)
        if k == "unexp":
            return Err(pos, (g[1],), False)
        if k == "map":
            r = self.fast(g[1], pos, mark)
            return r._replace(v=g[2](r.v)) if type(r) is Ok else r
        if k in ("seq", "seql", "seqr", "bind"):
            a = self.fast(g[1], pos, mark)
            if type(a) is Err:
                return a
            if k == "bind":
                self.call(None, "bind", a.v)
            b = self.fast(self._bindg(g, a.v) if k == "bind" else g[2], a.pos, mark)
            if type(b) is Ok and k != "bind":
                b = b._replace(v=self._merge(k, a.v, b.v))
            if b.cons:
                return b
            return b._replace(exp=a.exp + b.exp, cons=a.cons)
        if k == "alt":
            a = self.fast(g[1], pos, mark)
            if type(a) is Ok or a.cons:
                return a
            b = self.fast(g[2], pos, mark)
            if b.cons:
                return b
            if type(b) is Ok:
                return b._replace(exp=a.exp + b.exp)
            return Err(a.pos, a.exp + b.exp, False)
        if k == "maybe":
            a = self.fast(g[1], pos, mark)
            if type(a) is Ok or a.cons:
                return a
            return Ok(None, pos, a.exp, False)
        if k == "many":
            vs = []
            while True:
                r = self.fast(g[1], pos, mark)
                if type(r) is Err:
                    if r.cons:
                        return r
                    return Ok(vs, pos, r.exp, bool(vs))
                if not r.cons:
                    raise RefRuntime
                vs = vs + [r.v]
                pos = r.pos
        if k == "attempt":
            r = self.fast(g[1], pos, mark)
            return r._replace(cons=False) if type(r) is Err else r
        if k == "label":
            r = self.fast(g[1], pos, mark)
            return r if r.cons else r._replace(exp=(g[2],))
        if k in ("recover", "rw", "rwf", "rwx"):
            return self.fast(g[1], pos, mark)
        if k == "block":
            return self.fast(g[1], pos, self.col(pos))
        if k == "aligned":
            if self.col_ok(mark, self.col(pos)):
                return self.fast(g[1], pos, mark)
            return Err(pos, ("indentation",), False)
        if k == "indented":
            c = self.col(pos)
            if self.col_ok(mark + self.num(g[1]), c):
                return self.fast(g[2], pos, c)
            return Err(pos, ("indentation",), False)
        raise KeyError(k)

    # -- recovering
    def _count(self, n):
        self.nreps += n
        if self.nreps > self.max_reps:
            raise TooMany

    def _pre(self, b, exp, cons):
        """Result b that follows (unrepaired) expectations exp/cons."""
        if type(b) is not Rec:
            return b if b.cons else b._replace(exp=exp + b.exp, cons=cons)
        reps = []
        for r in b.reps:
            ops = tuple(o if o.cons else o._replace(exp=exp + o.exp, cons=cons) for o in r.ops)
            if not r.cons:
                r = r._replace(exp=exp + r.exp, cons=cons)
            reps.append(r._replace(ops=ops))
        b = b._replace(reps=tuple(reps))
        return b if b.cons else b._replace(exp=exp + b.exp, cons=cons)

    def _set(self, b, exp):
        if type(b) is not Rec:
            return b if b.cons else b._replace(exp=exp)
        reps = tuple(r._replace(ops=tuple(o if o.cons else o._replace(exp=exp) for o in r.ops),
                                exp=r.exp if r.cons else exp) for r in b.reps)
        b = b._replace(reps=reps)
        return b if b.cons else b._replace(exp=exp)

    def _cont(self, a, ins, step, merge):
        """Continue after every repair of a."""
        out = []
        for r in a.reps:
            b = step(r)
            if type(b) is Ok:
                out.append(Rep(r.cost, r.prio, r.ins if r.pos == b.pos else ins, r.ops,
                               merge(r.v, b.v), b.pos, b.exp if b.cons else r.exp + b.exp,
                               r.cons or b.cons))
            elif type(b) is Rec:
                for rr in b.reps:
                    ops2 = tuple(o if o.cons else o._replace(exp=r.exp + o.exp, cons=r.cons)
                                 for o in rr.ops)
                    out.append(Rep(r.cost + rr.cost, r.prio, rr.ins, r.ops + ops2,
                                   merge(r.v, rr.v), rr.pos,
                                   rr.exp if rr.cons else r.exp + rr.exp, r.cons or rr.cons))
        self._count(len(out))
        return Rec(tuple(out), a.pos, a.exp, a.cons)

    def rec(self, g, pos, mark, ins, rem):
        k = g[0]
        if k in self.PRIMS and k != "tokins":
            m = self._prim(g, pos)
            lab = self._label(g)
            if m is not None:
                return Ok(m[0], m[1], (), m[1] != pos)
            if rem is None:
                return Err(pos, lab, False)
            reps = []
            if k in ("sym", "lit") and bool(rem != 0):
                reps.append(Rep(1, None, rem - 1, (Op("ins", lab[0], pos, lab, False),),
                                g[1], pos, (), True))
            cur = pos + 1
            while self._has(cur):
                m = self._prim(g, cur)
                if m is not None:
                    reps.append(Rep(cur - pos, 0, ins, (Op("skip", cur - pos, pos, lab, False),),
                                    m[0], m[1], (), True))
                    break
                cur += 1
            return Rec(tuple(reps), pos, lab, False) if reps else Err(pos, lab, False)
        d = self.desugar(g)
        if d is not None:
            return self.rec(d, pos, mark, ins, rem)
        if k == "eof":
            if not self._has(pos):
                return Ok(None, pos, (), False)
            lab = ("end of file",)
            if rem is None:
                return Err(pos, lab, False)
            n = int(symlen(self.st))
            return Rec((Rep(n - pos, 0, ins, (Op("skip", n - pos, pos, lab, False),), None, n,
                            (), False),), pos, lab, False)
        if k in ("pure", "purefn", "unexp"):
            return self.fast(g, pos, mark)
        if k == "map":
            r = self.rec(g[1], pos, mark, ins, rem)
            if type(r) is Ok:
                return r._replace(v=g[2](r.v))
            if type(r) is Rec:
                return r._replace(reps=tuple(x._replace(v=g[2](x.v)) for x in r.reps))
            return r
        if k in ("seq", "seql", "seqr", "bind"):
            a = self.rec(g[1], pos, mark, ins, rem)
            if type(a) is Err:
                return a

            def nxt(v, p, r):
                return self.rec(self._bindg(g, v) if k == "bind" else g[2], p, mark, ins, r)

            def merge(x, y):
                return y if k == "bind" else self._merge(k, x, y)
            if type(a) is Rec:
                return self._cont(a, ins, lambda r: nxt(r.v, r.pos, r.ins), merge)
            b = nxt(a.v, a.pos, ins if a.cons else rem)
            if type(b) is Ok:
                b = b._replace(v=merge(a.v, b.v))
            elif type(b) is Rec:
                b = b._replace(reps=tuple(r._replace(v=merge(a.v, r.v)) for r in b.reps))
            return self._pre(b, a.exp, a.cons)
        if k == "alt":
            a = self.rec(g[1], pos, mark, ins, None)
            if type(a) is Ok or a.cons:
                return a
            b = self.rec(g[2], pos, mark, ins, None)
            if b.cons:
                return b
            exp = a.exp + b.exp
            if type(b) is Ok:
                return b._replace(exp=exp)
            if rem is None:
                return Err(a.pos, exp, False)
            ra = self.rec(g[1], pos, mark, ins, rem)
            rb = self.rec(g[2], pos, mark, ins, rem)
            if type(ra) is Rec and type(rb) is Rec:
                reps = ra.reps + tuple(r for r in rb.reps if r.prio is not None)
                if ra.cons or rb.cons:
                    src = ra if ra.cons else rb
                    j = Rec(reps, src.pos, src.exp, True)
                else:
                    j = Rec(reps, ra.pos, ra.exp + rb.exp, False)
                return self._set(j, exp)
            if type(ra) is Rec:
                return self._set(ra, exp)
            if type(rb) is Rec:
                return self._set(rb, exp)
            return Err(a.pos, exp, False)
        if k == "maybe":
            a = self.rec(g[1], pos, mark, ins, None)
            if a.cons or type(a) is Ok:
                return a
            return Ok(None, pos, a.exp, False)
        if k == "many":
            return self._many(g[1], pos, mark, ins)
        if k == "attempt":
            if rem is not None:
                return self.rec(g[1], pos, mark, ins, rem)
            r = self.fast(g[1], pos, mark)
            return r._replace(cons=False) if type(r) is Err else r
        if k == "label":
            return self._set(self.rec(g[1], pos, mark, ins, rem), (g[2],))
        if k == "recover":
            r = self.rec(g[1], pos, mark, ins, rem)
            if type(r) is Rec:
                r = r._replace(reps=tuple(x if x.prio is not None else x._replace(prio=0)
                                          for x in r.reps))
            return r
        if k in ("rw", "rwf", "rwx"):
            r = self.rec(g[1], pos, mark, ins, rem)
            if rem is None or type(r) is Ok or r.cons or not bool(rem != 0):
                return r
            if k == "rw":
                x = g[2]
            elif k == "rwf":
                x = ("rwf", g[2], pos)
            else:
                x = g[2](self.st, pos)
            lab = g[3] if len(g) > 3 and g[3] is not None else repr(x)
            rep = Rep(1, 0, rem - 1, (Op("ins", lab, pos, r.exp, False),), x, pos, (), True)
            return Rec((rep,) + (r.reps if type(r) is Rec else ()), pos, r.exp, False)
        if k == "block":
            return self.rec(g[1], pos, self.col(pos), ins, rem)
        if k == "aligned":
            if self.col_ok(mark, self.col(pos)):
                return self.rec(g[1], pos, mark, ins, rem)
            return Err(pos, ("indentation",), False)
        if k == "indented":
            c = self.col(pos)
            if self.col_ok(mark + self.num(g[1]), c):
                return self.rec(g[2], pos, c, ins, rem)
            return Err(pos, ("indentation",), False)
        raise KeyError(k)

    def _many(self, g, pos, mark, ins):
        vs = []
        while True:
            r = self.rec(g, pos, mark, ins, None)
            if type(r) is Ok:
                if not r.cons:
                    raise RefRuntime
                vs = vs + [r.v]
                pos = r.pos
                continue
            if type(r) is Rec:
                pre = vs
                return self._cont(r, ins, lambda x: self._many(g, x.pos, mark, ins),
                                  lambda a, b: pre + [a] + b)
            if r.cons:
                return r
            return Ok(vs, pos, r.exp, bool(vs))


class TooMany(BaseException):
    """The reference enumerated more repairs than its limit: path skipped."""


def best(reps):
    """Cheapest, then furthest, then priority, then first."""
    b = None
    for r in reps:
        key = (r.cost, -r.pos, r.prio is None)
        if b is None or key < b[0]:
            b = (key, r)
    return b[1]


def walk(g):
    yield g
    for x in g[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield from walk(x)


def uses(g, *names):
    return any(x[0] in names for x in walk(g))
