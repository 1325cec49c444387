"""Harnesses: what is executed on every path, and what is asserted there.

Each harness is called as fn(eng, rp, params) where `eng` hands out the inputs
(symbolic while exploring, concrete in a replay), `rp` is the imported package
and `params` (JSON) fixes the structure: grammar, bounds, aspects to compare.
"""
from . import grammar as G
from .grammar import Builder, Falsy, Ref, RefRuntime, TooMany, totuple, best, Ok, Err, Rec
from .observe import observe, limit, Out, HangError
from .symex import same, conj, disj, neg, enum, symlen, str_eq

H = {}


def get(name):
    return H[name]


def harness(f):
    H[f.__name__] = f
    return f


def has(g, node):
    """Whether a grammar contains a kind of node."""
    return isinstance(g, (tuple, list)) and bool(g) and (g[0] == node or any(has(x, node) for x in g[1:]))


# ------------------------------------------------------------ worlds
# A world: the input stream, how locations look, how the package is called.

class World:
    remod = None
    mktok = None

    def __init__(self, eng, rp, P):
        self.eng, self.rp, self.P = eng, rp, P
        self.setup()

    def col(self, pos):
        return 0

    def ins(self):
        n = self.P.get("ins", 5)
        if n == "sym" and has(self.P.get("g"), "rec"):
            n = "sym<=6"     # a nested rule may be inserted max_insertions deep
        if n == "sym":
            return self.eng.int("max_insertions", 0)
        if isinstance(n, str) and n.startswith("sym<="):
            return self.eng.int("max_insertions", 0, int(n[5:]))
        return n


class Tokens(World):
    """Arbitrary integers, default locations."""

    def setup(self):
        P = self.P
        if "fix" in P:       # a given sentence, some of whose tokens are arbitrary
            toks = [self.eng.token("%st%d" % (P.get("pre", ""), i), P.get("alphabet", (1, 2, 3, 9))) if x is None else x
                    for i, x in enumerate(P["fix"])]
            self.stream = toks
        else:
            self.stream = self.eng.stream(P.get("pre", "") + "t", P["n"], P.get("alphabet", (1, 2, 3, 9)),
                                          lo=P.get("lo", 0))

    def parse(self, p, recover, ins=5):
        if not recover:
            return p.parse(self.stream)
        if self.P.get("ins", 5) == 5:
            return p.parse(self.stream, True)
        return p.parse(self.stream, recover=True, max_insertions=ins)

    def loc(self, pos):
        return (pos, 0, 0)

    def loc_str(self, pos):
        return "%s" % (pos,)

    def twin(self, t):
        return list(self.stream)

    def other(self, t, old):
        return self.eng.token("new%d" % t, self.P.get("alphabet", (1, 2, 3, 9)))

    def more(self, t):
        return self.other(t, None)

    moved = other


class Text(World):
    """Arbitrary characters, line and column tracking."""

    def setup(self):
        P = self.P
        if "fix" in P:
            from .symex import SymStr
            if self.eng.symbolic and not self.eng.eager:
                self.stream = SymStr([self.eng.int("c%d" % i, 0, 0x10FFFF) if x is None else ord(x)
                                      for i, x in enumerate(P["fix"])])
            else:
                cs = []
                for i, x in enumerate(P["fix"]):
                    cs.append(self.eng.string("c%d_" % i, 1) if False else
                              (self._char(i) if x is None else x))
                self.stream = "".join(cs)
        else:
            self.stream = self.eng.string(P.get("pre", "") + "c", P["n"], alphabet=P.get("alphabet", "ab\n c"),
                                          lo=P.get("lo", P["n"]))
        if self.eng.symbolic:
            from .symre import symre
            self.remod = symre
        else:
            import re
            self.remod = re

    def _char(self, i):
        al = self.P.get("alphabet", "ab\n c")
        if self.eng.symbolic:
            c = al[self.eng.choose("#c%d" % i, len(al))]
            self.eng.inputs["c%d" % i] = ord(c)
            return c
        return chr(self.eng.int("c%d" % i))

    def parse(self, p, recover, ins=5):
        if self.P.get("plainloc"):
            if recover:
                return p.parse(self.stream, recover=True, max_insertions=ins)
            return p.parse(self.stream)
        if recover:
            return self.rp.scannerless.parse(p, self.stream, recover=True)
        return self.rp.scannerless.parse(p, self.stream)

    def line(self, pos):
        return self.stream.count("\n", 0, pos)

    def col(self, pos):
        return pos - self.stream.rfind("\n", 0, pos) - 1

    def loc(self, pos):
        if self.P.get("plainloc"):
            return (pos, 0, 0)
        return (pos, self.line(pos), self.col(pos))

    def loc_str(self, pos):
        if self.P.get("plainloc"):
            return "%s" % (pos,)
        return "%s:%s" % (self.line(pos) + 1, self.col(pos) + 1)


KINDS = ["a", "b", "c", "ab", "A", ""]


class Lexed(World):
    """Arbitrary tokens with arbitrary kinds and locations."""

    def setup(self):
        eng, rp, P = self.eng, self.rp, self.P
        kinds = P.get("kinds", KINDS)
        lo = P.get("lo", 0)
        pre = P.get("pre", "")
        fix = P.get("fix")
        n = lo + eng.choose(pre + "len", P["n"] - lo + 1) if fix is None else len(fix)
        Loc, Token = rp.Loc, rp.lexer.Token

        def loc(name, i):
            return Loc(eng.int(pre + "%s.pos%d" % (name, i), 0, 40), eng.int(pre + "%s.line%d" % (name, i), 0, 9),
                       eng.int(pre + "%s.col%d" % (name, i), 0, 9))
        if not eng.symbolic or not eng.eager:
            # of a given sentence only the arbitrary tokens and the last have arbitrary locations
            self.stream = [Token(enum(eng, "k%d" % i, kinds), "v%d" % i, loc("start", i), loc("end", i))
                           if fix is None or fix[i] is None else
                           Token(fix[i], "v%d" % i, Loc(i, i // 8, i % 8), Loc(i + 1, i // 8, i % 8 + 1))
                           for i in range(n)]
            return

        def cloc(name, i):
            # a few locations, different everywhere, the index never equals pos
            pos = 2 * i + (name == "end") + eng.choose(pre + "%s.pos%d" % (name, i), 2) * 3
            eng.inputs[pre + "%s.pos%d" % (name, i)] = pos
            col = eng.choose(pre + "%s.col%d" % (name, i), 3)
            eng.inputs[pre + "%s.line%d" % (name, i)] = i
            return Loc(pos, i, col)
        self.stream = [Token(kinds[eng.choose(pre + "k%d" % i, len(kinds))], "v%d" % i, cloc("start", i),
                             cloc("end", i)) if fix is None or fix[i] is None else
                       Token(fix[i], "v%d" % i, Loc(i, i // 8, i % 8), Loc(i + 1, i // 8, i % 8 + 1)) for i in range(n)]

    def parse(self, p, recover, ins=5):
        if recover:
            return self.rp.lexer.parse(p, self.stream, recover=True)
        return self.rp.lexer.parse(p, self.stream)

    def _l(self, pos):
        if pos < len(self.stream):
            return tuple(self.stream[pos].start)
        if self.stream:
            return tuple(self.stream[-1].end)
        return (0, 0, 0)

    def loc(self, pos):
        return self._l(pos)

    def loc_str(self, pos):
        _, line, col = self._l(pos)
        return "%s:%s" % (line + 1, col + 1)

    def col(self, pos):
        return self._l(pos)[2]

    def twin(self, t):
        """Equal tokens (kind and value) somewhere else."""
        Loc, Token = self.rp.Loc, self.rp.lexer.Token
        return [Token(x.kind, x.value, Loc(x.start.pos + 5, x.start.line + 1, x.start.col + 1),
                      Loc(x.end.pos + 5, x.end.line + 1, x.end.col + 1)) for x in self.stream]

    def other(self, t, old):
        kinds = self.P.get("kinds", KINDS[:3])
        return self.rp.lexer.Token(kinds[self.eng.choose("kind%d" % t, len(kinds))], "n", old.start, old.end)

    def moved(self, t, old):
        """The same token anywhere else."""
        f = lambda n: self.rp.Loc(*(self.eng.int("%s%d.%s" % (n, t, x), 0, 40) for x in ("pos", "line", "col")))
        return self.rp.lexer.Token(old.kind, old.value, f("moved"), f("movede"))

    def more(self, t):
        k = self.rp.Loc(50 + t, 9, 3)
        return self.moved(t, self.other(t, self.rp.lexer.Token("", "", k, k)))

    def mktok(self, kind, value, pos):
        loc = self.rp.Loc(*self._l(pos))
        return self.rp.lexer.Token(kind, value, loc, loc)


class El:
    """An opaque element: whether it equals a given value is arbitrary."""
    __slots__ = "_key", "_eq"
    __hash__ = None

    def __init__(self, i, eq):
        self._key, self._eq = i, eq

    def __eq__(self, o):
        return o is self if isinstance(o, El) else self._eq("eq " + repr(o))(self._key)

    def __ne__(self, o):
        return neg(self == o)

    def __repr__(self):
        return "El%d" % self._key


class Objs(Tokens):
    """Opaque elements, unhashable, with arbitrary equality to the values asked for."""

    def setup(self):
        eng, P = self.eng, self.P
        lo = P.get("lo", 0)
        n = lo + eng.choose("len", P["n"] - lo + 1)
        self.stream = [El(i, eng.pred) for i in range(n)]


class Located:
    """Location functions of the user's own: every position has an arbitrary offset,
    line and column, which say nothing about the position."""

    def setup(self):
        super().setup()
        self.memo = {}
        self.start = self.rp.Loc(0, 0, 0)

    def at(self, pos):
        x = self.memo.get(pos)
        if x is None:
            f = lambda k, al: self.eng.token("%s%s@%d" % (self.P.get("pre", ""), k, pos), al)
            x = self.memo[pos] = self.rp.Loc(f("off", (0, 7)), f("line", (0, 3)), f("col", (0, 1, 2)))
        return x

    def get_loc(self, prev, stream, pos):
        eng = self.eng
        eng.check(stream is self.stream, "get_loc must be given the stream being parsed")
        eng.check(type(pos) is int and 0 <= pos <= len(self.stream), "get_loc must be given a position in the stream",
                  lambda: "position %r" % (pos,))
        before = [self.start] + [l for p, l in self.memo.items() if p <= pos]
        if not any(prev is l for l in before):
            eng.check(disj([same(tuple(prev), tuple(l)) for l in before]),
                      "get_loc must start from an earlier location", lambda: "%r for %r" % (prev, pos))
        return self.at(pos)

    def fmt_loc(self, loc):
        self.eng.check(type(loc) is self.rp.Loc, "fmt_loc must be given a location", lambda: repr(loc))
        return "" if self.P.get("odd") else ("fmt",) + tuple(loc)

    def parse(self, p, recover, ins=5):
        k = dict(get_loc=self.get_loc, fmt_loc=self.fmt_loc)
        if self.P.get("odd"):
            k = {n: Falsy(f) for n, f in k.items()}
        if not recover:
            return p.parse(self.stream, **k)
        if self.P.get("ins", 5) == 5:
            return p.parse(self.stream, True, **k)
        return p.parse(self.stream, recover=True, max_insertions=ins, **k)

    def loc(self, pos):
        return tuple(self.at(pos))

    def loc_str(self, pos):
        return "" if self.P.get("odd") else ("fmt",) + tuple(self.at(pos))

    def col(self, pos):
        return self.at(pos).col


class OwnTokens(Located, Tokens):
    pass


class OwnText(Located, Text):
    pass


WORLDS = {"objs": Objs, "tokens": Tokens, "text": Text, "lexed": Lexed, "own": OwnTokens, "owntext": OwnText}


def world(eng, rp, P):
    return WORLDS[P.get("w", "tokens")](eng, rp, P)


def build(eng, rp, P):
    w = world(eng, rp, P)
    g = totuple(P["g"])
    b = Builder(eng, rp)
    if P.get("hc"):
        b.share = {}
    b.truthy, b.wrap, b.fn = bool(P.get("truthy")), bool(P.get("wrap")), bool(P.get("fn"))
    b.odd = bool(P.get("odd"))
    b.stream, b.grow = w.stream, bool(P.get("grow"))
    ref = Ref(eng, w.stream, b.pred, col=w.col, remod=w.remod, num=b.num, mktok=w.mktok)
    try:
        p = b(g)
    except Exception as e:
        eng.check(False, "building the parser failed", lambda: "%r: %r" % (g, e))
        raise
    return w, g, ref, p


def plain_ref(ref, g):
    try:
        return ref.fast(g, 0)
    except RefRuntime:
        return "runtime"


def rec_ref(eng, ref, g, n):
    """Reference outcome under recovery, None when the path is cut."""
    try:
        return ref.rec(g, 0, 0, n, n)
    except RefRuntime:
        return "runtime"
    except TooMany:
        eng.reach("cut: too many repairs")
        return None


def shown(eng, w, g, o, extra=""):
    def f():
        try:
            st = repr(list(w.stream)) if not isinstance(w.stream, str) else repr(w.stream)
        except BaseException as e:
            st = "?"
        return "grammar %r on %s gave %s%s" % (g, st, tuple(o), extra)
    if eng.symbolic:
        return lambda: "grammar %r" % (g,)
    return f


# ------------------------------------------------------------ plain parsing

def cmp_plain(eng, w, g, o, r, asp, mode):
    """Assertions about an outcome that involves no repair."""
    d = shown(eng, w, g, o, "; expected %r" % (r,) if not eng.symbolic else "")
    if r == "runtime":
        eng.reach("runtime")
        eng.check(o.kind == "exc" and o.text == "RuntimeError",
                  "%s: repeating an empty match must raise RuntimeError" % mode, d)
        return
    if type(r) is Ok:
        eng.reach("accept" if r.cons else "accept without consuming")
        eng.check(o.kind == "ok", "%s: input must be accepted" % mode, d)
        eng.check(same(o.value, r.v), "%s: wrong value" % mode, d)
        return
    eng.reach("reject after consuming" if r.cons else "reject")
    eng.check(o.kind == "err", "%s: input must be rejected with a ParseError" % mode, d)
    if "one" in asp:
        eng.check(len(o.items) == 1 and o.items[0].op is None and o.recovered is None,
                  "%s: exactly one error without a repair" % mode, d)
    if not o.items:
        eng.check(False, "%s: a ParseError must carry an error" % mode, d)
        return
    it = o.items[0]
    if "loc" in asp:
        eng.check(same(it.loc, w.loc(r.pos)), "%s: wrong error location" % mode, d)
    if "locstr" in asp:
        eng.check(same(it.loc_str, w.loc_str(r.pos)), "%s: wrong formatted location" % mode, d)
    if "exp" in asp:
        eng.check(same(it.expected, list(r.exp)), "%s: wrong expectations" % mode, d)


@harness
def plain(eng, rp, P):
    w, g, ref, p = build(eng, rp, P)
    r = plain_ref(ref, g)
    for k in range(P.get("times", 1)):
        o = observe(rp, lambda: w.parse(p, False))
        cmp_plain(eng, w, g, o, r, P["asp"], "plain")


@harness
def calls(eng, rp, P):
    """Functions of the user's are called once for each value they are to work on, in order."""
    w = world(eng, rp, P)
    g = totuple(P["g"])
    b = Builder(eng, rp)
    if P.get("hc"):
        b.share = {}
    b.wrap, b.fn = bool(P.get("wrap")), bool(P.get("fn"))
    got = []

    def u(f, *tag):
        if not tag:
            return f

        def call(*a):
            got.append(tag + a)
            return f(*a)
        return call
    b.u = u
    ref = Ref(eng, w.stream, b.pred, col=w.col, remod=w.remod, num=b.num, mktok=w.mktok)
    ref.log = want = []
    p = b(g)
    r = plain_ref(ref, g)
    eng.check(not got, "a function was called before anything was parsed", lambda: "%r: %r" % (g, got))
    o = observe(rp, lambda: w.parse(p, False))
    cmp_plain(eng, w, g, o, r, [], "plain")
    if type(r) is not Ok:
        return
    d = shown(eng, w, g, o, "; calls %r instead of %r" % (got, want) if not eng.symbolic else "")
    tags = {c[0] for c in want} | {c[0] for c in got}
    for t in sorted(tags):
        x, y = [c for c in got if c[0] == t], [c for c in want if c[0] == t]
        eng.reach("%s called" % t)
        eng.check(len(x) == len(y), "a function is called once for each value", d)
        eng.check(conj([same(i, j) for i, j in zip(x, y)]), "a function is called with each value in turn", d)


@harness
def steps(eng, rp, P):
    """Every test of an element and call of a user function is the one the rules come to next."""
    w = world(eng, rp, P)
    g = totuple(P["g"])
    b = Builder(eng, rp)
    if P.get("hc"):
        b.share = {}
    b.truthy, b.wrap, b.fn = bool(P.get("truthy")), bool(P.get("wrap")), bool(P.get("fn"))
    b.odd = bool(P.get("odd"))
    b.stream = w.stream
    log = []

    def u(f, *tag):
        if not tag:
            return f

        def call(*a):
            log.append(tag + a)
            return f(*a)
        return call
    b.u = u
    if isinstance(w, Objs):
        for e in w.stream:
            e._eq = lambda k, f=e._eq: lambda key: (log.append(("eq", k, key)), f(k)(key))[1]
    ref = Ref(eng, w.stream, b.pred, col=w.col, remod=w.remod, num=b.num, mktok=w.mktok)
    ref.log = log
    p = b(g)
    eng.check(not log, "a function was called before anything was parsed", lambda: "%r: %r" % (g, log))
    r = plain_ref(ref, g)
    want = log[:]
    for m in ("fast", "rec"):
        log.clear()
        o = observe(rp, lambda: w.parse(p, m == "rec"))
        got = log[:]
        if m == "rec" and type(r) is not Ok:
            if type(r) is Err and isinstance(w, Objs) and not has(g, "attempt"):
                eng.check(all((c[2] if c[0] == "eq" else c[1]._key) >= r.pos
                              for c in got[len(want):] if c[0] in ("eq", "test")),
                          "an element before the one that is rejected is looked at again",
                          lambda: "grammar %r: %r, rejected at %r" % (g, got, r.pos))
                eng.reach("rejected at %s" % min(r.pos, 3))
            got = got[:len(want)]       # up to where the input is rejected
        else:
            cmp_plain(eng, w, g, o, r, [], m)
        d = shown(eng, w, g, o, "; %s: steps %r instead of %r" % (m, got, want) if not eng.symbolic else "")
        for t in (("op",), ("test", "eq", "fmap", "purefn", "bind")):
            x, y = [c for c in got if c[0] in t], [c for c in want if c[0] in t]
            eng.check(len(x) >= len(y), "a step is left out", d)
            eng.check(len(x) <= len(y), "a step is taken more than once", d)
            eng.check(conj([same(i, j) for i, j in zip(x, y)]), "a step is not the one the rules come to", d)
        for c in want:
            eng.reach("%s, %s" % (c[0], m if type(r) is Ok else m + " rejected"))
    eng.reach("%s steps" % (len(want) if len(want) < 5 else "5+"))


@harness
def depth(eng, rp, P):
    """A long input under (about) the interpreter's default recursion limit:
    how deep the code recurses must not grow with the number of items."""
    import sys
    w, g, ref, p = build(eng, rp, P)
    f, here = sys._getframe(), 0
    while f is not None:
        f, here = f.f_back, here + 1
    old = sys.getrecursionlimit()
    try:
        sys.setrecursionlimit(here + 950)
        o = observe(rp, lambda: w.parse(p, P["recover"]))
    finally:
        sys.setrecursionlimit(old)
    eng.reach("long " + o.kind)
    eng.check(o.kind != "exc", "%s: %s" % (P["msg"], (o.text or "").split(":")[0]), lambda: "%r on %d elements: %s" % (g, len(P["fix"]), o.text))


# ------------------------------------------------------------ recovery

def script_of(o):
    return [(it.op[0] if it.op else None, it.op[1] if it.op else None) for it in o.items]


def rep_matches(w, o, x, exp=False, value=True):
    """Condition: outcome o reports exactly the repair x (of the reference)."""
    if len(x.ops) != len(o.items) or o.recovered is None:
        return False
    cs = []
    for it, op in zip(o.items, x.ops):
        if it.op is None or it.op[0] != op.kind:
            return False
        cs.append(same(it.op[1], op.arg))
        cs.append(same(it.loc, w.loc(op.pos)))
        if exp:
            cs.append(same(it.expected, list(op.exp)))
        if cs[-1] is False:
            return False
    if value:
        cs.append(same(o.recovered[1], x.v))
    return conj(cs)


def cost_of(o):
    c = 0
    for it in o.items:
        c = c + (it.op[1] if it.op[0] == "skip" else 1)
    return c


@harness
def rec(eng, rp, P):
    """Recovering parse compared with the reference, aspect by aspect."""
    w, g, ref, p = build(eng, rp, P)
    n = w.ins()
    rf = plain_ref(ref, g)
    rr = rec_ref(eng, ref, g, n)
    if rr is None:
        return
    judge_rec(eng, w, g, rf, rr, observe(rp, lambda: w.parse(p, True, n)), P["asp"])


def judge_rec(eng, w, g, rf, rr, o, asp):
    d = shown(eng, w, g, o, "; expected %r" % (rr if type(rr) is not Rec or not rr.reps
                                               else best(rr.reps),) if not eng.symbolic else "")
    if "total" in asp:
        if rr == "runtime":
            eng.check(o.kind == "exc" and o.text == "RuntimeError",
                      "repeating an empty match must raise RuntimeError", d)
        else:
            eng.check(o.kind == "ok" or (o.kind == "err" and len(o.items) > 0),
                      "parsing must end in a value or a ParseError with an error", d)
    if type(rf) is Ok:
        if "accept" in asp:
            cmp_plain(eng, w, g, o, rf, asp, "recovery on")
        return
    if rf == "runtime" or rr == "runtime":
        eng.reach("runtime")
        if "accept" in asp:
            eng.check(o.kind == "exc" and o.text == "RuntimeError",
                      "recovery on: repeating an empty match must raise RuntimeError", d)
        return
    if "accept" in asp:
        eng.check(o.kind == "err", "recovery on: input must be rejected", d)
    if o.kind != "err" or not o.items:
        if set(asp) - {"accept", "total"}:
            eng.check(False, "recovery on: input must be rejected with a ParseError", d)
        return
    reps = rr.reps if type(rr) is Rec else ()
    if not reps:
        eng.reach("no repair")
    elif any(r.cost > 1 for r in reps):
        eng.reach("repair")
    eng.reach("%d errors" % min(len(o.items), 4) if reps else "unrepaired")
    repaired = o.recovered is not None
    if "avail" in asp:
        eng.check(repaired == bool(reps), "a repair is returned iff one exists", d)
        eng.check(repaired == all(it.op is not None for it in o.items),
                  "items carry an operation iff there is a repair", d)
    if not reps:
        if "norep" in asp:
            eng.check(not repaired and len(o.items) == 1 and o.items[0].op is None,
                      "without a repair exactly one error without operation", d)
            if not has(g, "attempt"):     # where no property says which of the two places is named
                eng.check(same(o.items[0].loc, w.loc(rr.pos)), "wrong location of unrepaired error", d)
        if "exp" in asp:
            eng.check(same(o.items[0].expected, list(rr.exp)),
                      "wrong expectations of unrepaired error", d)
        return
    if not repaired:
        return
    if any(it.op is None for it in o.items):
        eng.check(False, "items of a repair carry operations", d)
        return
    least = min(r.cost for r in reps)
    if "cost" in asp:
        eng.check(same(cost_of(o), least), "the repair must be as cheap as possible", d)
    if "cheap" in asp:       # at most: used where only availability is claimed
        eng.check(cost_of(o) <= least, "an affordable repair must be available", d)
    cheapest = [r for r in reps if r.cost == least]
    far = max(r.pos for r in cheapest)
    cand = [r for r in cheapest if r.pos == far]
    if "far" in asp:
        eng.check(disj([rep_matches(w, o, r) for r in cand]),
                  "the repair must be a cheapest one that gets furthest", d)
    if "prio" in asp:
        marked = [r for r in cand if r.prio is not None] or cand
        eng.check(disj([rep_matches(w, o, r) for r in marked]),
                  "an unmarked insertion must lose, and repairs start where allowed", d)
    if "admissible" in asp:
        eng.check(disj([rep_matches(w, o, r) for r in reps]),
                  "the reported repair must be an admissible one, with its value", d)
    if "value" in asp:       # the value alone, for the script reported
        ok = [r for r in reps if rep_matches(w, o, r, value=False) is not False]
        if ok:
            eng.check(disj([neg(disj([rep_matches(w, o, r, value=False) for r in ok]))] +
                           [rep_matches(w, o, r) for r in ok]),
                      "the repaired value must be composed like any other value", d)
    if "items" in asp:
        ok = [r for r in reps if rep_matches(w, o, r) is not False]
        eng.check(disj([rep_matches(w, o, r, exp=True) for r in ok]),
                  "every item must say where, what was expected and what was done", d)
    if "locs" in asp:
        for it in o.items:
            pass
    if "locstr" in asp:
        for it in o.items:
            eng.check(any(bool(conj([same(it.loc, w.loc(x.pos)), same(it.loc_str, w.loc_str(x.pos))]))
                          for r in cand for x in r.ops), "wrong location in a repair", d)


@harness
def agree(eng, rp, P):
    """C13: plain and recovering parse agree on accepted inputs (real vs real)."""
    w, g, ref, p = build(eng, rp, P)
    n = w.ins()
    if rec_ref(eng, ref, g, n) is None:
        return
    a = observe(rp, lambda: w.parse(p, False))
    b = observe(rp, lambda: w.parse(p, True, n))
    d = shown(eng, w, g, b, "; plain gave %s" % (tuple(a),) if not eng.symbolic else "")
    eng.reach("plain " + a.kind)
    eng.check((a.kind == "ok") == (b.kind == "ok"), "recovery changes the verdict", d)
    if a.kind == "ok":
        eng.check(same(a.value, b.value), "recovery changes the value of an accepted input", d)
    elif a.kind == "err":
        eng.check(b.kind in ("err", "exc"), "recovery hides an error", d)
        if b.recovered is not None:
            eng.reach("repaired")


@harness
def first(eng, rp, P):
    """C14: the first error of a recovering parse is the plain error (real vs real)."""
    w, g, ref, p = build(eng, rp, P)
    n = w.ins()
    rr = rec_ref(eng, ref, g, n)
    if rr is None or rr == "runtime":
        return
    a = observe(rp, lambda: w.parse(p, False))
    if a.kind != "err":
        return
    b = observe(rp, lambda: w.parse(p, True, n))
    d = shown(eng, w, g, b, "; plain gave %s" % (tuple(a),) if not eng.symbolic else "")
    eng.reach("rejected, repaired" if b.recovered else "rejected, no repair")
    eng.check(b.kind == "err" and len(b.items) > 0, "a rejected input must stay rejected", d)
    if b.kind != "err" or not b.items:
        return
    x, y = a.items[0], b.items[0]
    eng.check(same(x.loc, y.loc), "first error is located elsewhere under recovery", d)
    eng.check(same(x.loc_str, y.loc_str), "first error is printed differently under recovery", d)
    eng.check(same(x.expected, y.expected), "first error expects something else under recovery", d)


# -- C15: edit scripts

def leaves(v, tags=True):
    """What a value-retaining grammar parsed, in order."""
    if v is None:
        return []
    if isinstance(v, (list, tuple)):
        if not tags:
            return [y for x in v for y in leaves(x, False)]
        if len(v) and isinstance(v[0], str) and v[0] in ("f", "b", "ap"):
            v = v[2:] if v[0] == "f" else v[1:]
        elif len(v) == 4 and isinstance(v[0], str) and v[0] == "op":
            return leaves(v[2]) + leaves(v[1]) + leaves(v[3])
        elif len(v) == 3 and isinstance(v[0], str) and v[0] == "rwf":
            return [v]
        out = []
        for x in v:
            out += leaves(x)
        return out
    return [v]


@harness
def script(eng, rp, P):
    w, g, ref, p = build(eng, rp, P)
    n = w.ins()
    rr = rec_ref(eng, ref, g, n)
    if rr is None or rr == "runtime":
        return
    o = observe(rp, lambda: w.parse(p, True, n))
    if o.kind != "err" or o.recovered is None:
        return
    d = shown(eng, w, g, o)
    labels = {k: v for k, v in P.get("labels", ())}     # label -> inserted value
    text = P.get("w") == "text"
    toks = list(w.stream) if not text else w.stream
    cur, want = 0, []
    total = len(toks)
    eng.reach("%d operations" % min(len(o.items), 4))
    for it in o.items:
        eng.check(it.op is not None and it.op[0] in ("skip", "ins"), "an item without operation", d)
        if it.op is None:
            return
        pos = it.loc[0]
        eng.check(conj([pos >= cur, pos <= total]),
                  "operations must be ordered, in bounds and not overlap", d)
        pos = int(pos)
        want += list(toks[cur:pos]) if not text else [toks[cur:pos]]
        cur = pos
        if it.op[0] == "skip":
            k = it.op[1]
            eng.check(conj([k >= 1, pos + k <= total]), "a skip must lie inside the input", d)
            cur = pos + int(k)
        else:
            want.append(("label", it.op[1]))
    got = leaves(o.recovered[1], not text)
    whole = P.get("whole", True)
    if text:
        return cmp_text(eng, got, want, toks[cur:], labels, whole, d)
    want += toks[cur:]
    base = len(want) - (total - cur)
    if whole:
        eng.check(len(got) == len(want), "the value must read as the edited input", d)
    else:
        eng.check(base <= len(got) <= len(want), "the value must read as the edited input", d)
    cs = []
    for x, y in zip(got, want):
        cs.append(reads(x, y, labels))
    eng.check(conj(cs), "the value must read as the edited input", d)


def reads(x, y, labels):
    if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) and y[0] == "label":
        if y[1] in labels:
            z = labels[y[1]]
            if isinstance(z, str) and z.startswith("rwf:"):
                return isinstance(x, tuple) and x[:2] == ("rwf", z[4:])
            return same(x, totuple(z))
        return same(repr(x), y[1])
    return same(x, y)


def cmp_text(eng, got, want, rest, labels, whole, d):
    """Strings: the pieces concatenate to the edited text."""
    from .symex import SymStr
    def cat(parts):
        s = ""
        for q in parts:
            s = s + q
        return s
    pieces = []
    for y in want:
        if isinstance(y, tuple):
            y = labels.get(y[1]) or eval(y[1])
        pieces.append(y)
    a, b = cat(got), cat(pieces)
    full = b + rest
    if whole:
        eng.check(same(a, full), "the value must read as the edited input", d)
    else:
        eng.check(len(b) <= len(a) <= len(full), "the value must read as the edited input", d)
        eng.check(same(a, full[:len(a)]), "the value must read as the edited input", d)


@harness
def allowance(eng, rp, P):
    """C16: at most max_insertions insertions in a row, for any value of it."""
    w, g, ref, p = build(eng, rp, P)
    n = w.ins()
    rr = rec_ref(eng, ref, g, n)
    if rr is None or rr == "runtime":
        return
    o = observe(rp, lambda: w.parse(p, True, n))
    if o.kind == "ok":
        return
    d = shown(eng, w, g, o, "; max_insertions=%s" % (n,))
    eng.check(o.kind == "err", "parsing must end in a ParseError", d)
    reps = rr.reps if type(rr) is Rec else ()
    if o.recovered is not None:
        run, last, most = 0, None, 0
        for it in o.items:
            if it.op is None:
                continue
            here = it.loc[0]
            if it.op[0] == "ins":
                run = run + 1 if last is not None and bool(same(here, last)) else 1
                most = max(most, run)
                last = here
            else:
                last, run = None, 0
        eng.reach("%d insertions in a row" % min(most, 4))
        eng.check(most <= n, "more insertions in a row than allowed", d)
    else:
        eng.reach("no repair")
    if reps:
        eng.check(o.recovered is not None, "an affordable repair must be available", d)
        if all(it.op is not None for it in o.items):
            eng.check(cost_of(o) <= min(r.cost for r in reps),
                      "an affordable repair must be available", d)


# ------------------------------------------------------------ C08

def text_of(loc_str, expected, op):
    """The documented text of one error."""
    t = "at " + loc_str + ": "
    n = len(expected)
    if n == 0:
        t += "unexpected input"
    else:
        t += "expected "
        for i, e in enumerate(expected):
            if i:
                t += " or " if i == n - 1 else ", "
            t += e
    if op is None:
        return t
    if op[0] == "skip":
        c = op[1]
        return t + " (skipped " + ("%s" % (c,)) + (" token)" if bool(c == 1) else " tokens)")
    return t + " (inserted " + op[1] + ")"


LABELS = ["x", "", "a, b", "{}", "%s", "end of file", "{0}", "{loc}", "%(x)s %d %%", "\\1\\g<0>", "$a", " or ", "x (skipped 1 token)",
          "at 1: unexpected input", "expected y", "a\nb", " b ", "'", "\x00", "\ud800", "\xe9"]


@harness
def message(eng, rp, P):
    """ErrorItem.msg and str(ParseError) on arbitrary items."""
    items, texts = [], []
    small = "wide" in P or "all" in P
    for j in range(P["items"] if "all" in P else 1 + eng.choose("extra", P["items"])):
        # the first item is anything, later ones are short
        m = P["wide"] if "wide" in P else eng.choose("n%d" % j, P["labels"] + 1 if j == 0 else 2) if j < 3 else 1
        exp = []
        for i in range(m):
            # an arbitrary number's text, or an odd label in an arbitrary place
            exp.append("%s" % (eng.int("l%d_%d" % (j, i)),))
        if m and j == 0 and "all" not in P:
            odd = eng.choose("odd", 5 if small else len(LABELS) + 1)
            if odd:
                exp[eng.choose("at", m)] = LABELS[odd - 1]
        k = eng.choose("op%d" % j, 4 if j == 0 and not small else 3) if j < 2 else j % 3
        if k == 0:
            op, o = None, None
        elif k == 1:
            c = eng.int("count%d" % j, 1 if j < 3 else 2)
            op, o = rp.Skip(c), ("skip", c)
        else:
            lab = "%s" % (eng.int("ins%d" % j),) if k == 2 else LABELS[eng.choose("il%d" % j, len(LABELS))]
            op, o = rp.Insert(lab), ("ins", lab)
        pos = eng.int("pos%d" % j)
        ls = "%s:%s" % (pos, eng.int("col%d" % j))
        if m == 1 and j == 0 and k < 2 and not small:
            ol = eng.choose("oddloc", len(LABELS) + 1)
            if ol:
                ls = LABELS[ol - 1]
        loc = rp.Loc(pos, eng.int("line%d" % j), 0)
        it = rp.ErrorItem(loc, ls, list(exp), op) if op is not None else rp.ErrorItem(loc, ls, list(exp))
        want = text_of(ls, exp, o)
        for again in range(2):
            try:
                got = it.msg
            except Exception as e:
                got = "%s: %s" % (type(e).__name__, e)
            eng.check(same(got, want), "wrong error text", lambda: "%r instead of %r" % (got, want))
        eng.check(conj([same(it.loc_str, ls), same(list(it.expected), exp), same(tuple(it.loc), tuple(loc))]),
                  "rendering changed the error", lambda: repr(it))
        items.append(it)
        texts.append(want)
    err = rp.ParseError(items)
    want = texts[0]
    for t in texts[1:]:
        want += ", " + t
    got = str(err)
    eng.check(same(got, want), "wrong exception text", lambda: "%r instead of %r" % (got, want))
    eng.check(err.errors is items or list(err.errors) == items, "errors lost", None)
    eng.reach("%d items" % len(items))


@harness
def result(eng, rp, P):
    """unwrap / unwrap(recover) / fmap on results of real parses, in any order."""
    w, g, ref, p = build(eng, rp, P)
    recover = bool(P.get("recover"))
    if recover and rec_ref(eng, ref, g, 5) in (None, "runtime"):
        return
    calls = []

    def fmt(l):
        return "<%s|%s>" % (l[0], l[1])
    p2 = p
    if P.get("fmt"):
        def run():
            return p2.parse(w.stream, recover, fmt_loc=fmt)
    else:
        def run():
            return w.parse(p2, recover)
    try:
        res = run()
    except Exception as e:
        eng.check(False, "parse raised", lambda: repr(e))
        return
    base = look(rp, run())
    if base[0] == "exc":
        eng.check(False, "unwrap raised something else", lambda: repr(base))
        return

    # the text and loc_str of the errors
    if base[0] == "err":
        for it in base[1]:
            if P.get("fmt"):
                eng.check(same(it.loc_str, fmt(it.loc)), "location not formatted by fmt_loc", lambda: repr(base))
        want = text_of(base[1][0].loc_str, base[1][0].expected, base[1][0].op)
        for it in base[1][1:]:
            want += ", " + text_of(it.loc_str, it.expected, it.op)
        eng.check(same(base[2], want), "wrong exception text", lambda: "%r instead of %r" % (base[2], want))
        eng.reach("errors %d" % min(len(base[1]), 3))
    else:
        eng.reach("accepted")
    plain, rec_ = base, look(rp, run(), True)
    if base[0] == "ok":
        eng.check(rec_[0] == "ok" and same(rec_[1], base[1]), "unwrap(recover=True) must return the value", None)
    elif not recover:
        eng.check(same_look(rec_, base), "unwrap(recover=True) must raise the same error without a repair", None)
    elif rec_[0] == "ok":
        eng.reach("repaired value")
        eng.check(all(it.op is not None for it in base[1]), "a repair without operations", None)
    else:
        eng.reach("no repair")
        eng.check(same_look(rec_, base), "unwrap(recover=True) must raise the same error without a repair", None)
        eng.check(len(base[1]) == 1 and base[1][0].op is None, "an unrepaired error with an operation", None)
    objs = [(res, plain, rec_, 0)]
    for i in range(P.get("steps", 3)):
        k = eng.choose("step%d" % i, 3)
        j = eng.choose("on%d" % i, len(objs))
        r, a, b, d = objs[j]
        if k == 2:
            objs.append((r.fmap(lambda v, t=i: ("f", t, v)), wrap(a, i), wrap(b, i), d + 1))
            eng.reach("fmap depth %d" % (d + 1))
            r, a, b, d = objs[-1]
            k = 1
        got = look(rp, r, bool(k))
        eng.check(same_look(got, b if k else a), "a repeated or mapped result differs",
                  lambda: "%r instead of %r" % (got, b if k else a))


def look(rp, r, recover=False):
    try:
        return ("ok", r.unwrap(recover=True) if recover else r.unwrap())
    except rp.ParseError as e:
        from .observe import items_of
        return ("err", items_of(rp, e), str(e))
    except Exception as e:
        return ("exc", "%s: %s" % (type(e).__name__, e))


def wrap(a, t):
    return ("ok", ("f", t, a[1])) if a[0] == "ok" else a


def same_look(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "ok":
        return same(a[1], b[1])
    return conj([same([tuple(x) for x in a[1]], [tuple(x) for x in b[1]]), same(a[2], b[2])]) \
        if a[0] == "err" else a == b


# ------------------------------------------------------------ C19

class Box:
    pass


class FreshBuilder(Builder):
    def b_purefn(self, v):
        return self.rp.primitive.PureFn(Box)

    def b_fmapbox(self, g):
        return self(g).fmap(lambda v: (v, Box()))

    def b_bindbox(self, g):
        return self(g).bind(lambda v: self.rp.primitive.Pure((v, Box())))

    def b_rwfbox(self, g):
        return self(g).recover_with_fn(lambda stream, pos: Box(), "box")


def boxes(v):
    if isinstance(v, Box):
        return [v]
    if isinstance(v, (tuple, list)):
        return [y for x in v for y in boxes(x)]
    return []


@harness
def fresh(eng, rp, P):
    """Every value of a function of the user's was made for the place where it shows up."""
    p = FreshBuilder(eng, rp)(totuple(P["g"]))
    seen = []
    for k, m in enumerate(P.get("runs", ("rec", "fast", "rec"))):
        s = eng.stream("s%d_" % (k % 2), P["n"])
        o = observe(rp, lambda: p.parse(s, m == "rec"))
        v = o.value if o.kind == "ok" else o.recovered[1] if o.kind == "err" and o.recovered else None
        seen += boxes(v)
        d = (lambda: "grammar %r, run %d (%s)" % (P["g"], k, m)) if not eng.symbolic else None
        eng.check(len({id(x) for x in seen}) == len(seen), "a value is not fresh", d)
        eng.reach("%d fresh" % min(len(seen), 3))


@harness
def history(eng, rp, P):
    """Any interleaving of building, parsing and inspecting over shared parsers."""
    gs = [totuple(g) for g in P["gs"]]
    kw = {"alphabet": (1, 2, 3)}
    streams = []
    for j in range(P.get("streams", 2)):
        if "fix" in P:
            streams.append([eng.token("s%d_%d" % (j, i), **kw) if x is None else x
                            for i, x in enumerate(P["fix"][j])])
        else:
            streams.append(eng.stream("s%d_" % j, P["n"], **kw))
    modes = P.get("modes", ["fast", "rec"])
    ref0 = Builder(eng, rp)

    def run(p, m, s):
        return p.parse(s) if m == "fast" else p.parse(s, recover=True)

    # what each parse means on its own: fresh parsers, nothing shared, looked at once
    want = {}

    def alone(i, m, j):
        k = (i, m, j)
        if k not in want:
            r = Ref(eng, streams[j], ref0.pred)
            if m != "fast":
                if rec_ref(eng, r, gs[i], 5) is None:
                    from .symex import Abort
                    raise Abort
            want[k] = observe(rp, lambda: run(unshared(Builder(eng, rp), ref0)(gs[i]), m, streams[j]))
        return want[k]
    b = Builder(eng, rp)
    b.preds = ref0.preds
    ps = [b(g) for g in gs]
    results = []
    for t in range(P["steps"]):
        k = eng.choose("do%d" % t, 1 if not results else 4)
        if k == 0:                      # parse
            i = eng.choose("p%d" % t, len(ps))
            m = modes[eng.choose("m%d" % t, len(modes))]
            j = eng.choose("s%d" % t, len(streams))
            exp = alone(i, m, j)
            try:
                r = run(ps[i], m, streams[j])
            except Exception as e:
                r = e
            results.append((r, exp, (i, m, j)))
        elif k == 1:                    # inspect an earlier result
            q = eng.choose("r%d" % t, len(results))
            check_result(eng, rp, results[q], gs)
        elif k == 3:                    # map an earlier result
            q = eng.choose("r%d" % t, len(results))
            r, exp, key = results[q]
            if not isinstance(r, Exception):
                results.append((r.fmap(lambda v, t=t: ("f", t, v)), mapped(exp, t), key))
                eng.reach("mapped")
        else:                           # build more from a parser, and run that
            i = eng.choose("p%d" % t, len(ps))
            q = ps[i]
            kind = eng.choose("b%d" % t, 4)
            new = [lambda: q.label("zzz"), lambda: q.recover(), lambda: q.recover_with(77),
                   lambda: (q + q) | q.maybe()][kind]()
            try:
                run(new, "rec", streams[0]).unwrap()
            except Exception:
                pass
            eng.reach("built")
    for r in results:
        check_result(eng, rp, r, gs)
        check_result(eng, rp, r, gs)
    eng.reach("%d results" % len(results))


PASP = ["loc", "exp", "one"]
RASP = ["accept", "avail", "norep", "exp", "cost", "far", "prio", "items", "loc"]


def mapped(o, t):
    f = lambda v: ("f", t, v)
    if o.kind == "ok":
        return o._replace(value=f(o.value))
    return o._replace(recovered=("some", f(o.recovered[1]))) if o.recovered else o


def refs_of(eng, w, g, b, mode, n=5):
    """What the reference says about one parse (None: cut)."""
    def ref():
        return Ref(eng, w.stream, b.pred, col=w.col, remod=w.remod, num=b.num, mktok=w.mktok)
    rf = plain_ref(ref(), g)
    if mode == "fast":
        return (rf, None)
    rr = rec_ref(eng, ref(), g, n)
    return None if rr is None else (rf, rr)


def judge(eng, w, g, refs, mode, o):
    if mode == "fast":
        cmp_plain(eng, w, g, o, refs[0], PASP, "plain")
    else:
        judge_rec(eng, w, g, refs[0], refs[1], o, RASP)


def seen(rp, r):
    return observe(rp, lambda: _raise(r) if isinstance(r, Exception) else r)


def spoil(rp, r):
    """Changes every list a user can get hold of."""
    if isinstance(r, Exception):
        return

    def lists(v):
        if isinstance(v, (list, tuple)):
            for x in v:
                lists(x)
        if isinstance(v, list):
            v.append("spoilt")
    for rec in (False, True):
        try:
            lists(r.unwrap(recover=rec))
        except rp.ParseError as e:
            for i in e.errors:
                lists(i.expected)
            lists(e.errors)


@harness
def again(eng, rp, P):
    """Parses one after another over a stream that stays, is replaced by one
    with equal elements, or is changed in place; held results stay as they were."""
    gs = [totuple(g) for g in P["gs"]]
    w = world(eng, rp, P)
    b = Builder(eng, rp)
    if P.get("hc"):
        b.share = {}
    ps = [b(g) for g in gs]
    held = []
    for t in range(P["steps"]):
        i = eng.choose("p%d" % t, len(ps))
        m = ("fast", "rec")[eng.choose("m%d" % t, 2)]
        how = P["how"][eng.choose("how%d" % t, len(P["how"]))] if t else "same"
        if how == "twin":
            w.stream = w.twin(t)
        elif how == "change" and len(w.stream):
            k = eng.choose("at%d" % t, len(w.stream))
            w.stream[k] = w.other(t, w.stream[k])
        elif how == "pop" and len(w.stream):
            w.stream.pop()
        elif how == "append":
            w.stream.append(w.more(t))
        elif how == "move" and len(w.stream):
            k = eng.choose("at%d" % t, len(w.stream))
            w.stream[k] = w.moved(t, w.stream[k])
        eng.reach(how)
        refs = refs_of(eng, w, gs[i], b, m)
        if refs is None:
            return
        before = list(w.stream)
        try:
            r = w.parse(ps[i], m == "rec")
        except Exception as e:
            r = e
        o = seen(rp, r)
        judge(eng, w, gs[i], refs, m, o)
        if P.get("spoil"):              # what was handed out belongs to the user
            spoil(rp, r)
            eng.reach("spoilt")
            o2 = seen(rp, r)
            eng.check(o.kind == o2.kind and same(tuple(o.items or ()), tuple(o2.items or ())),
                      "the errors changed when the lists handed out were changed",
                      lambda: "grammar %r: %r then %r" % (gs[i], tuple(o), tuple(o2)))
        else:
            held.append((r, o, i))
        eng.check(len(before) == len(w.stream) and all(x is y or P.get("w") == "text" for x, y in zip(before, w.stream)),
                  "a parse changed its input", lambda: "grammar %r" % (gs[i],))
    for r, o, i in held:
        o2 = seen(rp, r)
        eng.check(same(tuple(o), tuple(o2)), "a result changed after later parses",
                  lambda: "grammar %r: %r then %r" % (gs[i], tuple(o), tuple(o2)))


class Hooked(list):
    """A stream whose every access is a point at which something else may run."""
    hook = None

    def __getitem__(self, i):
        if self.hook is not None:
            self.hook()
        return list.__getitem__(self, i)


@harness
def reenter(eng, rp, P):
    """A parse during which, at any access to its stream or call of a user
    function, another parse with the same or related parsers runs to its end."""
    gs = [totuple(g) for g in P["gs"]]
    w1 = world(eng, rp, P)
    w2 = world(eng, rp, dict(P, pre="i"))
    b = Builder(eng, rp)
    if P.get("hc"):
        b.share = {}
    state = {"left": P.get("nest", 1), "k": 0, "depth": 0}

    def hook():
        if not state["left"] or state["depth"]:
            return
        state["k"] += 1
        if eng.choose("switch%d" % state["k"], 2):
            state["left"] -= 1
            state["depth"] = 1
            o2 = observe(rp, lambda: w2.parse(ps[j], m2 == "rec"))
            state["depth"] = 0
            eng.reach("nested")
            inner.append(o2)
    inner = []
    b.b_call = lambda g: b(g).fmap(lambda v: (hook(), v)[1])
    ps = [b(g) for g in gs]
    i, j = eng.choose("outer", len(ps)), eng.choose("inner", len(ps))
    m1 = ("fast", "rec")[eng.choose("m1", 2)]
    m2 = ("fast", "rec")[eng.choose("m2", 2)]
    r1, r2 = refs_of(eng, w1, gs[i], b, m1), refs_of(eng, w2, gs[j], b, m2)
    if r1 is None or r2 is None:
        return
    if isinstance(w1.stream, list):
        w1.stream = Hooked(w1.stream)
        w1.stream.hook = hook
    o1 = observe(rp, lambda: w1.parse(ps[i], m1 == "rec"))
    if isinstance(w1.stream, list):
        w1.stream.hook = None
    judge(eng, w1, gs[i], r1, m1, o1)
    for o2 in inner:
        judge(eng, w2, gs[j], r2, m2, o2)


class Unwind(BaseException):
    """Ends a thread whose partner failed."""


class Pair:
    """Two runs in two threads; which one goes on is decided, by the engine, at every `hook`."""

    def __init__(self, eng, switches, at=None, early=0):
        import threading
        self.early = early              # which schedules come first: those that switch early, or late
        self.at = at                    # None, or also at every "call" of a function / "line" of the package
        self.eng, self.left, self.k, self.turn, self.made = eng, switches, 0, 0, 0
        self.baton = [threading.Semaphore(0) for _ in range(2)]
        self.done = threading.Semaphore(0)
        self.alive = [True, True]
        self.error = None

    def hook(self):
        me = self.turn
        if self.error is not None:
            raise Unwind
        if not self.left or not self.alive[1 - me]:
            return
        self.k += 1
        if self.eng.choose("switch%d" % self.k, 2) != self.early:
            self.left -= 1
            self.made += 1
            self.turn = 1 - me
            self.baton[1 - me].release()
            self.baton[me].acquire()
            if self.error is not None:
                raise Unwind

    def run(self, fs, seconds=15):
        import ctypes
        import sys
        import threading
        from . import loader
        out = [None, None]

        def trace(frame, event, arg):
            if not frame.f_code.co_filename.startswith(loader.SRC):
                return None
            if event == self.at:
                self.hook()
            return trace if self.at == "line" else None
        prof = sys.getprofile()

        def body(k):
            self.baton[k].acquire()
            try:
                if self.error is None:
                    sys.setprofile(prof)
                    if self.at is not None:
                        sys.settrace(trace)
                    out[k] = fs[k]()
            except BaseException as e:
                if self.error is None:
                    self.error = e
            finally:
                sys.settrace(None)
                sys.setprofile(None)
                self.alive[k] = False
                if self.alive[1 - k]:
                    self.turn = 1 - k
                    self.baton[1 - k].release()
                else:
                    self.done.release()
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(2)]
        for t in ts:
            t.start()
        self.baton[0].release()
        try:
            with limit(seconds):
                self.done.acquire()
        except HangError as e:
            self.error = e
            for t in ts:
                ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(Unwind))
            for q in self.baton:
                q.release()
        for t in ts:
            t.join(5)
        if isinstance(self.error, HangError):
            self.eng.check(False, "parses in two threads do not end")
        if self.error is not None:
            raise self.error
        return out


@harness
def threads(eng, rp, P):
    """Two parses at once, in two threads, with the same or related parsers: which one goes on is
    open at every access to a stream, call of a user function or of a location function."""
    gs = [totuple(g) for g in P["gs"]]
    w1 = world(eng, rp, P)
    w2 = w1 if P.get("one") else world(eng, rp, dict(P, pre="i"))
    b = Builder(eng, rp)
    if P.get("hc"):
        b.share = {}
    pair = Pair(eng, P.get("switches", 2), P.get("at"), P.get("early", 0))
    on = []
    hook = lambda: pair.hook() if on else None
    b.b_call = lambda g: b(g).fmap(lambda v: (hook(), v)[1])
    ps = [b(g) for g in gs]
    i, j = P["who"] if "who" in P else (eng.choose("first", len(ps)), eng.choose("second", len(ps)))
    m1 = ("fast", "rec")[P["modes"] // 2 if "modes" in P else eng.choose("m1", 2)]
    m2 = ("fast", "rec")[P["modes"] % 2 if "modes" in P else eng.choose("m2", 2)]
    r1, r2 = refs_of(eng, w1, gs[i], b, m1), refs_of(eng, w2, gs[j], b, m2)
    if r1 is None or r2 is None:
        return
    for w in {id(w1): w1, id(w2): w2}.values():
        if isinstance(w.stream, list):
            w.stream = Hooked(w.stream)
            w.stream.hook = hook
        if isinstance(w, Located):
            for n in ("get_loc", "fmt_loc"):
                setattr(w, n, lambda *a, f=getattr(w, n): (hook(), f(*a))[1])
    if pair.at:                         # whatever the package sets up once and for all is set up by now
        warm = Builder(eng, rp)
        warm.preds, warm.num = b.preds, b.num
        warm.b_call = lambda g: warm(g).fmap(lambda v: v)
        for w, k, m in ((w1, i, m1), (w2, j, m2)):
            observe(rp, lambda: w.parse([warm(g) for g in gs][k], m == "rec"))
    on.append(1)
    if P.get("looks"):                  # one result, looked at in both threads
        on.clear()
        try:
            r = w1.parse(ps[i], m1 == "rec")
        except Exception as e:
            r = e
        on.append(1)
        o1, o2 = pair.run([lambda: seen(rp, r)] * 2)
        w2, j, r2, m2 = w1, i, r1, m1
    else:
        o1, o2 = pair.run([lambda: observe(rp, lambda: w1.parse(ps[i], m1 == "rec")),
                           lambda: observe(rp, lambda: w2.parse(ps[j], m2 == "rec"))])
    on.clear()
    eng.reach("%d switches" % pair.made)
    for w in (w1, w2):
        if isinstance(w.stream, list):
            w.stream.hook = None
    judge(eng, w1, gs[i], r1, m1, o1)
    judge(eng, w2, gs[j], r2, m2, o2)


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


class Bombs:
    """Lets one call of a function of the user's raise, whichever it is."""

    def __init__(self, eng, rp, P):
        self.left = eng.choose("call", P.get("calls", 8)) + 1
        k = P.get("exc", 0) % 14
        self.exc = [lambda: Boom(), lambda: IndexError("list index out of range"), lambda: rp.ParseError([]), lambda: TypeError("no"),
                    lambda: AttributeError("no"), lambda: ValueError("no"), lambda: Stop(), lambda: KeyError("no"),
                    lambda: StopIteration("no"), lambda: GeneratorExit(), lambda: AssertionError("no"),
                    lambda: RuntimeError("no"), lambda: RecursionError("no"), lambda: rp.lexer.LexError(rp.Loc(0, 0, 0))][k]
        self.raised = None
        self.armed = False

    def wrap(self, f, *tag):
        def call(*a):
            if self.armed and self.raised is None:
                self.left -= 1
                if not self.left:
                    self.raised = self.exc()
                    raise self.raised
            return f(*a)
        return call


@harness
def raises(eng, rp, P):
    """A call of a function of the user's raises: that very exception comes out, and nothing remembers it."""
    w = world(eng, rp, P)
    g = totuple(P["g"])
    b = Builder(eng, rp)
    if P.get("hc"):
        b.share = {}
    bombs = Bombs(eng, rp, P)
    b.u = bombs.wrap
    b.fn, b.stream = bool(P.get("fn")), w.stream
    if isinstance(w, Located):
        w.get_loc, w.fmt_loc = bombs.wrap(w.get_loc), bombs.wrap(w.fmt_loc)
    if isinstance(w, Objs):
        for e in w.stream:
            e._eq = lambda k, f=e._eq: bombs.wrap(f(k))
    p = b(g)
    refs = {m: refs_of(eng, w, g, b, m) for m in ("fast", "rec")}
    if None in refs.values():
        return
    recover = bool(eng.choose("recover", 2))
    final = P.get("end", 0) % 3

    def run():
        with limit(10):
            r = w.parse(p, recover)
            if final == 2:
                r = r.fmap(bombs.wrap(lambda v: v))
            r.unwrap(bool(final))
    d = (lambda: "grammar %r, recover=%r, %r came out" % (g, recover, got)) if not eng.symbolic else None
    bombs.armed = True
    try:
        run()
        got = None
    except BaseException as e:
        if not isinstance(e, (Exception, GeneratorExit)) and e is not bombs.raised:
            raise
        got = e
    bombs.armed = False
    if bombs.raised is None:
        eng.reach("not reached")
        return
    eng.reach("raised, " + ("recovering" if recover else "plain"))
    # a StopIteration that passes through a generator comes out as a RuntimeError caused by it (PEP 479)
    e = got.__cause__ if isinstance(bombs.raised, StopIteration) and type(got) is RuntimeError else got
    eng.check(e is bombs.raised, "an exception of a user function does not come out", d)
    for m in ("fast", "rec"):
        judge(eng, w, g, refs[m], m, observe(rp, lambda: w.parse(p, m == "rec")))


def check_result(eng, rp, res, gs):
    from .observe import see
    r, exp, key = res
    if isinstance(r, Exception):
        got = observe(rp, lambda: _raise(r))
    else:
        try:
            got = see(rp, r)
        except Exception as e:
            got = observe(rp, lambda: _raise(e))
    eng.check(same(tuple(exp), tuple(got)), "a parse differs from the same parse alone",
              lambda: "grammar %r, %s: %r instead of %r" % (gs[key[0]], key, tuple(got), tuple(exp)))


def _raise(e):
    raise e


def unshared(b, ref0):
    b.preds = ref0.preds
    b.b_share = lambda name, g: b(g)
    return b


# ------------------------------------------------------------ C05

@harness
def delay(eng, rp, P):
    """A Delay used in any of several places before or after define."""
    w = world(eng, rp, P)
    g = totuple(P["g"])
    b = Builder(eng, rp)
    when = (0, 1, 3, 2)[eng.choose("define", 4)]  # before use / after use / as one that is defined later / never
    how = eng.choose("use", 24)
    twice = eng.choose("twice", 2)
    mode = eng.choose("recover", 2)
    d = rp.Delay()
    inner = b(g)

    def use(p):
        q = rp.sequence.sym(7)
        return [lambda: p, lambda: p.fmap(lambda v: v), lambda: p + q, lambda: q + p,
                lambda: p | q, lambda: q | p, lambda: p.many(), lambda: p.bind(lambda v: rp.primitive.Pure(v)),
                lambda: p.attempt().label("l").maybe(), lambda: p << q, lambda: q >> p, lambda: p.seql(q), lambda: p.seqr(q),
                lambda: q.between(p, p), lambda: p.between(q, q), lambda: p.sep_by(q), lambda: q.sep_by(p),
                lambda: p.then(q).then(p), lambda: q.then(p).apply(lambda a, b: (b, a)), lambda: p.recover(),
                lambda: p.recover_with(0), lambda: p.recover_with_fn(lambda s, i: i), lambda: rp.layout.block(p),
                lambda: p.chainl1(q.fmap(lambda _: (lambda a, b: (a, b))))][how]()
    try:
        if when == 0:
            d.define(inner)
            p = use(d)
        else:
            p = use(d)
            if when == 1:
                d.define(inner)
            if when == 3:
                d2 = rp.Delay()
                d.define(d2)
                d2.define(inner)
        q = use(inner)
    except Exception as e:
        eng.check(False, "building with Delay failed", lambda: repr(e))
        return
    if when != 2:
        if twice:
            try:
                d.define(rp.sequence.sym(8))
                bad = True
            except RuntimeError:
                bad = False
            eng.check(not bad, "a second define must raise RuntimeError", None)
            eng.reach("defined twice")
        a = observe(rp, lambda: p.parse(w.stream, bool(mode)))
        c = observe(rp, lambda: q.parse(w.stream, bool(mode)))
        eng.check(same(tuple(a), tuple(c)), "Delay differs from its definition",
                  lambda: "%r: %r instead of %r" % (g, tuple(a), tuple(c)))
        eng.reach("defined " + a.kind)
    else:
        a = observe(rp, lambda: p.parse(w.stream, bool(mode)))
        # it is reached unless sym 7 fails first or an alternative wins
        if how not in (3, 5, 10, 14, 16, 18):
            eng.check(a.kind == "exc" and a.text == "RuntimeError",
                      "an undefined Delay must raise RuntimeError", lambda: repr(tuple(a)))
            eng.reach("undefined")


# ------------------------------------------------------------ C09

@harness
def linecol(eng, rp, P):
    """Locations of scannerless.parse are exact, however the input was cut."""
    n = P["n"]
    s = eng.string("c", n, alphabet="a\nb")
    parts, used = [], 0
    upto = eng.choose("upto", n + 1)
    ps = []
    i = 0
    while used < upto:
        k = 1 + eng.choose("cut%d" % i, upto - used)
        how = eng.choose("how%d" % i, 2) if k == 1 else 1
        ps.append(rp.sequence.satisfy(lambda t: True) if how == 0 else
                  rp.scannerless.regexp(r"[\s\S]{%d}" % k))
        used += k
        i += 1
    q = rp.scannerless.regexp("") if P.get("start") else rp.primitive.Pure(None)
    if P.get("probe"):
        for x in ps:
            # something looks at the location on the way (and changes nothing)
            q = q + rp.layout.block(rp.sequence.sym("zz").maybe()) + x
    else:
        for x in ps:
            q = q + x
    q = q + rp.primitive.unexpected("here")
    o = observe(rp, lambda: rp.scannerless.parse(q, s, recover=bool(P.get("recover"))))
    d = (lambda: "%r" % (tuple(o),)) if not eng.symbolic else None
    eng.check(o.kind == "err" and len(o.items) == 1, "the input must be rejected", d)
    if o.kind != "err" or not o.items:
        return
    line = s.count("\n", 0, upto)
    col = upto - s.rfind("\n", 0, upto) - 1
    it = o.items[0]
    eng.reach("cut in %d" % min(i, 4))
    eng.check(same(it.loc, (upto, line, col)), "wrong location", d)
    eng.check(same(it.loc_str, "%s:%s" % (line + 1, col + 1)), "wrong formatted location", d)


@harness
def locstep(eng, rp, P):
    """Every error of every parse: line/col are those of its offset, and the
    offset is the one reported without tracking."""
    w, g, ref, p = build(eng, rp, P)
    recover = bool(P.get("recover"))
    if recover and rec_ref(eng, ref, g, 5) in (None, "runtime"):
        return
    a = observe(rp, lambda: p.parse(w.stream, recover))
    o = observe(rp, lambda: rp.scannerless.parse(p, w.stream, recover))
    d = shown(eng, w, g, o)
    eng.check(a.kind == o.kind, "tracking changes the outcome", d)
    if o.kind != "err":
        eng.reach(o.kind)
        return
    eng.check(len(o.items) == len(a.items), "tracking changes the outcome", d)
    eng.reach("%d items" % min(3, len(o.items)))
    for x, y in zip(o.items, a.items):
        pos = y.loc[0]
        eng.check(same(x.loc, (pos, w.line(pos), w.col(pos))), "wrong location", d)
        eng.check(same(x.loc_str, "%s:%s" % (w.line(pos) + 1, w.col(pos) + 1)),
                  "wrong formatted location", d)


# ------------------------------------------------------------ C10

class StubMatch:
    """An arbitrary non-empty match."""

    def __init__(self, spec, s, a, b, kind):
        self.re, self.string, self.pos, self.endpos = spec, s, a, len(s)
        self.a, self.b, self.kind = a, b, kind       # kind: None | (name, ga, gb)

    @property
    def lastgroup(self):
        return None if self.kind is None else self.kind[0]

    @property
    def lastindex(self):
        return self.kind[3] if self.kind else None

    def span(self, g=0):
        if g == 0:
            return (self.a, self.b)
        if self.kind and g in (self.kind[0], self.kind[3]):
            return (self.kind[1], self.kind[2])
        return (-1, -1)

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g):
        x, y = self.span(g)
        return None if x < 0 else self.string[x:y]

    def group(self, *gs):
        if len(gs) < 2:
            return self._one(gs[0] if gs else 0)
        return tuple(self._one(g) for g in gs)
    __getitem__ = _one

    def groupdict(self, default=None):
        d = {k: default for k in self.re.groupindex}
        if self.kind:
            d[self.kind[0]] = self._one(self.kind[0])
        return d

    def groups(self, default=None):
        return tuple(self._one(i) if self._one(i) is not None else default for i in (1, 2))


class StubSpec:
    """An arbitrary lexer specification: what it matches where is chosen freely."""
    groupindex = {"k": 1, "q": 2}
    groups = 2
    pattern, flags = "<stub>", 0

    def __init__(self, eng, ends=None):
        self.eng, self.at, self.ends = eng, {}, ends        # ends: where a match may end (None: anywhere)

    def match(self, string, pos=0, endpos=None):
        pos = int(pos)
        if pos not in self.at:
            eng, n = self.eng, len(string)
            kind = eng.choose("m%d" % pos, 7)
            if kind == 0 or pos >= n:
                self.at[pos] = None
            elif kind >= 5:                             # an empty match, of a named group or of none
                self.at[pos] = (pos, ("k", pos, pos, 1) if kind == 6 else None)
            else:
                if self.ends is None:
                    end = pos + 1 + eng.choose("e%d" % pos, n - pos)
                else:
                    ends = [x for x in self.ends if pos < x < n] + [n]
                    end = ends[eng.choose("e%d" % pos, len(ends))]
                if kind == 1:
                    k = None
                elif kind == 2:
                    k = ("k", pos, end, 1)
                elif kind == 3:
                    k = ("q", pos + 1, end, 2)          # the group is a part of the match
                else:
                    k = ("q", pos, pos, 2)              # an empty group
                self.at[pos] = (end, k)
        m = self.at[pos]
        return None if m is None else StubMatch(self, string, pos, m[0], m[1])

    def finditer(self, string, pos=0, endpos=None):
        i = int(pos)
        while i < len(string):
            m = self.match(string, i)
            if m is None:
                # search for the next place
                i += 1
                continue
            yield m
            i = max(m.end(), i + 1)

    def search(self, string, pos=0, endpos=None):
        for i in range(int(pos), len(string)):
            m = self.match(string, i)
            if m is not None:
                return m
        return None

    def scanner(self, string, pos=0):
        spec = self

        class Scanner:
            def __init__(self):
                self.i = pos

            def match(self):
                if self.i >= len(string):
                    return None
                m = spec.match(string, self.i)
                if m is not None:
                    self.i = m.end()
                return m
        return Scanner()


def true_loc(s, pos):
    return (pos, s.count("\n", 0, pos), pos - s.rfind("\n", 0, pos) - 1)


@harness
def lexer(eng, rp, P):
    s = eng.string("c", P["n"], alphabet="a1\n +", lo=P.get("lo", P["n"]))
    ends = None
    if "far" in P:                      # long stretches of one character after each of the first ones
        src, ends = s[:0], []
        for i in range(P["n"]):
            src = src + s[i:i + 1]
            ends.append(len(src))
            if i < len(P["far"]):
                c, k = P["far"][i]
                src = src + c * k
                ends.append(len(src))
        s = src
    if "re" in P:
        if eng.symbolic:
            from .symre import symre as re
        else:
            import re
        spec = re.compile(P["re"])
    else:
        spec = StubSpec(eng, ends)
    # the oracle
    want, err, pos = [], None, 0
    while pos < len(s):
        m = spec.match(s, pos=pos) if "re" in P else spec.match(s, pos)
        if m is None:
            err = true_loc(s, pos)
            break
        end = m.end()
        if end == pos:
            eng.reach("empty match")
            err = true_loc(s, pos)
            break
        if m.lastgroup is not None:
            want.append((m.lastgroup, m.group(m.lastgroup), true_loc(s, pos), true_loc(s, end)))
        pos = end
    try:
        from .observe import limit
        with limit(4):              # an endless lexer allocates tokens all the while
            toks = rp.lexer.split_tokens(s, spec)
        got = [(t.kind, t.value, tuple(t.start), tuple(t.end)) for t in toks]
        gerr = None
    except rp.lexer.LexError as e:
        got, gerr, gtxt = None, tuple(e.loc), str(e)
    except Exception as e:
        eng.check(False, "split_tokens raised", lambda: "%s: %s on %r" % (type(e).__name__, e, str(s)))
        return
    d = (lambda: "on %r (%s): got %r %r, expected %r %r" % (str(s), getattr(spec, "at", spec.pattern), got, gerr, want, err)) \
        if not eng.symbolic else None
    if err is not None:
        eng.reach("lexing error")
        eng.check(gerr is not None, "LexError must be raised", d)
        if gerr is not None:
            eng.check(same(gerr, err), "LexError at a wrong location", d)
            eng.check(same(gtxt, "Lexing error at %s:%s" % (err[1] + 1, err[2] + 1)), "wrong LexError text", d)
        return
    eng.check(gerr is None, "LexError on a source that can be covered", d)
    if gerr is not None:
        return
    eng.reach("%d tokens" % min(len(want), 4))
    eng.check(len(got) == len(want), "wrong number of tokens", d)
    for x, y in zip(got, want):
        eng.check(same(x[0], y[0]), "wrong token kind", d)
        eng.check(same(x[1], y[1]), "wrong token value", d)
        eng.check(same(x[2], y[2]), "wrong token start", d)
        eng.check(same(x[3], y[3]), "wrong token end", d)


@harness
def lexers(eng, rp, P):
    """Several sources and specifications one after the other, and, where it can be had,
    two lazy lexers stepped in any order: each as if it were alone."""
    if eng.symbolic:
        from .symre import symre as re
    else:
        import re
    specs = [re.compile(x) for x in P["res"]]
    srcs = [eng.string("c%d_" % i, n, alphabet="a1\n +", lo=0) for i, n in enumerate(P["n"])]

    def expected(s, spec):
        want, pos = [], 0
        while pos < len(s):
            m = spec.match(s, pos=pos)
            if m is None or m.end() == pos:
                return want, true_loc(s, pos)
            if m.lastgroup is not None:
                want.append((m.lastgroup, m.group(m.lastgroup), true_loc(s, pos), true_loc(s, m.end())))
            pos = m.end()
        return want, None
    wants = {}

    def want(i, j):
        if (i, j) not in wants:
            wants[i, j] = expected(srcs[i], specs[j])
        return wants[i, j]
    view = lambda t: (t.kind, t.value, tuple(t.start), tuple(t.end))

    def compare(got, gerr, i, j, how):
        toks, err = want(i, j)
        eng.check((gerr is None) == (err is None), "wrong outcome of a later lexing", how)
        if err is not None and gerr is not None:
            eng.check(same(gerr, err), "LexError of a later lexing at a wrong location", how)
        if err is None:
            eng.check(len(got) == len(toks), "wrong number of tokens of a later lexing", how)
            for x, y in zip(got, toks):
                eng.check(same(x, y), "wrong token of a later lexing", how)
    from .observe import limit
    seq = P["seq"]                      # (source, specification)
    for k, (i, j) in enumerate(seq):
        try:
            with limit(4):
                got, gerr = [view(t) for t in rp.lexer.split_tokens(srcs[i], specs[j])], None
        except rp.lexer.LexError as e:
            got, gerr = [], tuple(e.loc)
        except Exception as e:
            eng.check(False, "split_tokens raised", repr(e))
            return
        compare(got, gerr, i, j, "step %d" % k)
    it = getattr(rp.lexer, "iter_tokens", None)
    if it is None or not P.get("lazy"):
        eng.reach("one after the other")
        return
    # two at once
    runs = []
    for k in (0, 1):
        i, j = seq[k]
        runs.append([iter(it(srcs[i], specs[j])), [], None, False, i, j])
    step = 0
    while not all(r[3] for r in runs):
        live = [r for r in runs if not r[3]]
        r = live[eng.choose("who%d" % step, len(live))]
        step += 1
        try:
            with limit(4):
                r[1].append(view(next(r[0])))
        except StopIteration:
            r[3] = True
        except rp.lexer.LexError as e:
            r[2], r[3] = tuple(e.loc), True
        except Exception as e:
            eng.check(False, "iter_tokens raised", repr(e))
            return
        eng.check(step < 40, "iter_tokens does not end", None)
    for r in runs:
        compare(r[1], r[2], r[4], r[5], "lazy")
    eng.reach("stepped in turns")


# ------------------------------------------------------------ C11

@harness
def tokeneq(eng, rp, P):
    """Tokens compare by kind and value only."""
    Token, Loc = rp.lexer.Token, rp.Loc

    def loc(n):
        return Loc(eng.int(n + ".pos"), eng.int(n + ".line"), eng.int(n + ".col"))
    k1, k2 = eng.int("k1"), eng.int("k2")
    v1, v2 = eng.int("v1"), eng.int("v2")
    a = Token(k1, v1, loc("s1"), loc("e1"))
    b = Token(k2, v2, loc("s2"), loc("e2"))
    want = bool(conj([k1 == k2, v1 == v2]))
    try:
        got, ne = bool(a == b), bool(a != b)
    except Exception as e:
        eng.check(False, "comparison raised", lambda: repr(e))
        return
    eng.check(got == want, "tokens must be equal iff kind and value are", None)
    eng.check(ne == (not want), "tokens must differ iff kind or value do", None)
    c = Token(k1, v1)
    eng.check(bool(c == a), "tokens must be equal iff kind and value are", None)
    eng.reach("equal" if want else "different")


@harness
def tokenhash(eng, rp, P):
    """Equal tokens are one and the same in sets and as keys."""
    Token, Loc = rp.lexer.Token, rp.Loc

    def loc(n):
        return Loc(*(eng.int("%s.%s" % (n, x), 0, 2) for x in ("pos", "line", "col")))
    k1, k2 = (("a", "b")[eng.choose(n, 2)] for n in ("k1", "k2"))
    v1, v2 = (("", "x")[eng.choose(n, 2)] for n in ("v1", "v2"))
    a, b = Token(k1, v1, loc("s1"), loc("e1")), Token(k2, v2, loc("s2"), loc("e2"))
    try:
        ha, hb, found, n = hash(a), hash(b), b in {a: 1}, len({a, b})
    except Exception as e:
        eng.check(False, "hashing raised", lambda: repr(e))
        return
    want = k1 == k2 and v1 == v2
    eng.check(not want or ha == hb, "equal tokens must have equal hashes", None)
    eng.check(found == want and n == 2 - want, "equal tokens, and no others, must be found in a set", None)
    eng.reach("found" if want else "not found")


@harness
def lexparse(eng, rp, P):
    """lexer.parse(split_tokens(s)) locates errors at true source positions."""
    s = eng.string("c", P["n"], alphabet="a1\n +", lo=P.get("lo", P["n"]))
    if eng.symbolic:
        from .symre import symre as re
    else:
        import re
    spec = re.compile(P["re"])
    try:
        toks = rp.lexer.split_tokens(s, spec)
    except rp.lexer.LexError:
        eng.reach("lexing error")
        return
    # independent positions
    at, pos, last = [], 0, (0, 0, 0)
    while pos < len(s):
        m = spec.match(s, pos)
        if m.lastgroup is not None:
            at.append((m.lastgroup, true_loc(s, pos)))
            last = true_loc(s, m.end())
        pos = m.end()
    at.append((None, last))
    # a parser that stops at the first unexpected kind
    p = rp.lexer.token(P["kinds"][0]) + rp.lexer.token(P["kinds"][1]) + rp.lexer.token(P["kinds"][0])
    seq = [P["kinds"][0], P["kinds"][1], P["kinds"][0]]
    stop = None
    for i, k in enumerate(seq):
        if i >= len(at) - 1 or at[i][0] != k:
            stop = i
            break
    o = observe(rp, lambda: rp.lexer.parse(p, toks))
    d = (lambda: "%r: %r" % (str(s), tuple(o))) if not eng.symbolic else None
    if stop is None:
        eng.check(o.kind == "ok", "input must be accepted", d)
        eng.reach("accepted")
        return
    eng.reach("rejected at %d" % stop)
    eng.check(o.kind == "err" and len(o.items) == 1, "input must be rejected", d)
    if o.kind != "err":
        return
    loc = at[min(stop, len(at) - 1)][1]
    eng.check(same(o.items[0].loc, loc), "wrong location", d)
    eng.check(same(o.items[0].loc_str, "%s:%s" % (loc[1] + 1, loc[2] + 1)), "wrong formatted location", d)
    eng.check(same(o.items[0].expected, [seq[stop]]), "wrong expectation", d)
