"""What every property's check runs."""
from .families import *
from . import families as F

VERDICT = []                       # accept/reject and value only
WHERE = ["loc"]
PLAIN = ["loc", "one"]
FULL = ["loc", "exp", "one"]


def both(g, n, asp, m=None, **k):
    """Plain parse of g, and the recovering one on accepted inputs."""
    return [plain(g, n, asp, **k), rec(g, m or n, ["accept"], **k)]


def pick(xs, tier, every):
    return xs if tier == "thorough" else xs[::every]


def long_plain(asp):
    return [plain(g, None, asp, fix=f) for g, f in LONG]


def long_rec(h="rec", **k):
    return [dict(h=h, g=g, n=None, fix=f, **k) for g, f in LONGR]


def big(g):
    """The same grammar over large numbers: equal ones are not the same object."""
    if not isinstance(g, tuple):
        return g
    if g[0] in ("sym", "not") and type(g[1]) is int:
        return (g[0], g[1] + 10**6) + g[2:]
    return tuple(big(x) for x in g)


def bigs(gs, n, asp, recasp):
    """... with every path run again on plain numbers."""
    return [plain(big(g), n, asp, validate=1) for g in gs] + [rec(big(g), n, recasp, validate=1, max_paths=200) for g in gs]


def wide(k):
    """Grammars of many like parts: (grammar, input lengths)."""
    syms = [("sym", i, "s%d" % i) for i in range(10, 10 + k)]
    nest = lambda g, f: __import__("functools").reduce(lambda x, _: f(x), range(k), g)
    right = lambda xs: xs[0] if len(xs) == 1 else alt(xs[0], right(xs[1:]))
    lefts = lambda xs: __import__("functools").reduce(lambda x, y: alt(x, y), xs)
    rseq = lambda xs: xs[0] if len(xs) == 1 else ("seq", xs[0], rseq(xs[1:]))
    maybes = [("maybe", x) for x in syms]
    inp = [10 + i for i in range(k)]
    out = [(("seq", lefts(syms), S1), None, [X, 1]), (("seq", right(syms), S1), None, [X, X]), (("seq", lefts([AB] + syms + [("attempt", ("seq", S1, S3))]), EOF), None, [1, X]),
           (("seq", ("label", lefts(syms), "lab"), EOF), None, [X]), (("seq", ("maybe", right(syms)), S1), None, [X]),
           (("seq", ("many", lefts(syms)), EOF), None, [X, 11, X]), (("seq", ("attempt", ("seq", right(syms), S1)), EOF), None, [11, X]),
           (("seq", seq(*maybes), S1), None, [X, 1]), (rseq(maybes + [S1]), None, [12, X]), (rseq([("many", x) for x in syms] + [S1]), None, [10, 11, X, X]),
           (seq(*syms), None, inp[:-1] + [X]), (rseq(syms), None, [X] + inp[1:]), (("seq", rseq(syms), EOF), None, inp + [X]),
           (("seq", nest(S1, lambda g: ("label", g, "l")), S2), None, [X, X]), (("seq", nest(("seq", ("maybe", S3), S1), lambda g: ("maybe", g)), S2), None, [X, X]),
           (("seq", nest(AB, lambda g: ("attempt", g)), S2), None, [1, X]), (("seq", nest(S1, lambda g: ("fmap", g, "f")), S2), None, [X, X]),
           (("seq", nest(S1, lambda g: ("delay", g)), S2), None, [X, X]), (nest(S1, lambda g: alt(("seq", g, S2), S3)), None, [1, 2, 2, X]),
           (("seq", lefts([("seq", x, S1) for x in syms]), EOF), None, [X, X])]
    return [(g, f) for g, _, f in out]


def owned(t, tier, every):
    """Some of the same grammars where the user's own locations say nothing about the position."""
    xs = [x for x in t if x["h"] in ("plain", "agree") and not {"w", "fix", "lo"} & set(x)]
    return [dict(x, w="own", n=min(3, x["n"])) for x in (xs if tier == "thorough" else xs[every // 2::every])]


def stretch(h, asp, ks, kinds=("list", "chain", "deep", "wrap"), every=1, **kw):
    t = []
    for k in ks:
        for g, f in stretched(k, kinds)[::every]:
            t.append(dict(h=h, g=g, n=None, fix=f, max_paths=60, **kw))
            if asp is not None:
                t[-1]["asp"] = list(asp)
    return t


def mistakes(h, asp, ks=(9, 14, 24), **kw):
    """Many mistakes in one input."""
    out = []
    for k in ks:
        syms = [("sym", i) for i in range(10, 10 + k)]
        spaced = [v for i in range(10, 10 + k) for v in (99, i)]
        spaced[3] = spaced[-4] = X
        out += [(("seq", seq(*[("not", 3)] * k), EOF), [3, 2] * (k - 1) + [X, X], (0, 5)),
                (("seq", ("many", ("seq", S1, ("seq", S2, S3))), EOF), [X] + [1, 99, 2, 3] * k + [X], (0,)),
                (("seq", ("many", ("seq", S1, ("seq", S2, ("sym", 9)))), EOF), [1, 9] * k + [X], (1, 5)),
                (("seq", seq(*syms), EOF), spaced, (0,) if k > 14 else (0, 1) if k > 10 else (0, 5))]
    t = []
    for g, f, inss in out:
        for ins in inss:
            t.append(dict(h=h, g=g, n=None, fix=f, ins=ins, max_paths=60, **kw))
            if asp is not None:
                t[-1]["asp"] = list(asp)
    return t


def kin(plainasp, recasp, every=1):
    """Parsers built from equal arguments which are not the same, side by side."""
    t = []
    one, yes = ("sym", 1), ("sym", True)
    pairs = [(one, yes), (yes, one), (("sym", 0), ("sym", False)), (("sym", 1, "a"), ("sym", 1, "b")), (("sym", 1, "a"), one),
             (("rw", S3, 1), ("rw", S3, True)), (("rw", S3, True, "T"), ("rw", S3, 1, "T")), (("rw", S3, 1, "A"), ("rw", S3, 1, "B")),
             (("pure", 1), ("pure", True)), (("pure", False), ("pure", 0)), (("label", S1, "a"), ("label", S1, "b")),
             (("label", S1, "a"), ("label", S2, "a")), (("unexp", "a"), ("unexp", "b")), (("fmap", S1, "x"), ("fmap", S1, "y")),
             (("many", one), ("many", yes)), (("maybe", one), ("maybe", yes)), (("rwf", S3, "t"), ("rwf", S3, "t", "L")),
             (("purefn", 1), ("purefn", True)), (("delay", one), ("delay", yes)), (("recover", one), ("recover", yes))]
    cs = [lambda p, q: alt(("seq", S2, p), ("seq", p, q), q), lambda p, q: ("seq", ("seq", p, S2), ("seq", q, ("seq", p, EOF))),
          lambda p, q: alt(("attempt", ("seq", p, S2)), ("seq", q, EOF))]
    tpairs = [(("re", "(a)(b)", 1), ("re", "(a)(b)", 2)), (("re", "(a)(b)", 2), ("re", "(a)(b)")), (("re", "(?P<x>a)(?P<y>b)?", "y"), ("re", "(?P<x>a)(?P<y>b)?", "x")),
              (("re", "a"), ("lit", "a")), (("lit", "a"), ("sym", "a")), (("label", ("lit", "a"), "l"), ("lit", "a"))]
    lpairs = [(("tokins", "a", "A"), ("tokins", "a", "B")), (("tok", "a"), ("tokins", "a", "")), (("tokins", "a", "A"), ("tokins", "b", "A"))]
    n = 0
    for c in cs:
        for p, q in pairs:
            n += 1
            if n % every == 0:
                t += [plain(c(p, q), 3, plainasp), rec(c(p, q), 2, recasp, max_paths=300)]
        for p, q in tpairs:
            p2 = lambda x: {S2: ("lit", "b"), S3: ("lit", "a")}.get(x, tuple(p2(y) for y in x) if isinstance(x, tuple) else x)
            t += [plain(p2(c(p, q)), 4, plainasp, w="text", lo=0, alphabet="ab"), rec(p2(c(p, q)), 3, recasp, w="text", lo=0, alphabet="ab", plainloc=1, max_paths=300)]
        for p, q in lpairs:
            p2 = lambda x: {S2: ("tok", "b"), S3: ("tok", "a")}.get(x, tuple(p2(y) for y in x) if isinstance(x, tuple) else x)
            t += [plain(p2(c(p, q)), 3, plainasp, w="lexed"), rec(p2(c(p, q)), 2, recasp, w="lexed", max_paths=300)]
    return t


def wides(h, asp, tier, every=1, ks=(7, 13, 26), attempt=True, **kw):
    t, n = [], 0
    for k in ks if tier == "quick" else ks + (40,):
        for g, f in wide(k):
            if not attempt and "attempt" in repr(g):
                continue
            n += 1
            if n % every and tier == "quick":
                continue
            d = dict(h=h, g=g, n=None, fix=f, **kw)
            if asp is not None:
                d["asp"] = list(asp)
            t.append(d)
    return t


OPQ = [("opq", S1), ("opq", AB), ("opq", ("maybe", S1)), ("opq", PURE), ("opq", ("many", S1)), ("opq", ("rw", S1, 0)),
       ("opq", ("recover", AB)), ("opq", alt(AB, S3))]


def opaques(asp, recasp=None):
    """Values that cannot be compared, hashed, tested or iterated pass through everything."""
    t = []
    for i, o in enumerate(OPQ):
        cs = [("seq", o, o), ("seql", o, S2), ("seqr", S2, o), ("then", o, S2, o), ("apply", o, S2, o), alt(o, S3), alt(S3, o),
              ("maybe", o), ("attempt", o), ("label", o, "L"), ("recover", o), ("rw", o, 0), ("fmap", o, "f"), ("delay", o),
              ("between", S3, S3, o), ("bind", o, "then", S2), ("opq", o)]
        if not nullable(o):
            cs += [("many", o), ("sepby", o, S3), ("chainl", o, S3), ("chainr", o, S3), ("chainl", S3, o), ("chainr", S3, o)]
        for c in cs:
            t.append(plain(ctx_rest(c), 3, asp))
            t.append(rec(("seq", c, EOF), 3, recasp or ["accept", "value"], max_paths=100))
    return t


def specials(asp, cs):
    """Values Python itself gives a meaning: NotImplemented, ..., an exception, a class, not-a-number."""
    t = []
    for n in ("ni", "dots", "stop", "type", "nan"):
        x = ("special", S1, n)
        for g in {"seq": (("seq", x, x), ("seq", x, ("seql", x, S2)), ("seqr", S2, x), ("then", x, S2, x), ("apply", x, x, x), ("between", S2, S3, x)),
                  "alt": (alt(x, S2), alt(S2, x), ("maybe", x), ("seq", ("maybe", x), x), alt(("attempt", ("seq", x, S2)), ("many", x)), ("attempt", x)),
                  "list": (("many", x), ("sepby", x, S2), ("many", ("seq", x, x)), ("sepby", S2, x)),
                  "map": (("fmap", x, "f"), ("bind", x, "then", S2), ("delay", x), ("bind", S2, "then", x))}[cs]:
            t += both(ctx_rest(g), 4, asp, 3)
            t.append(rec(("seq", g, EOF), 3, ["accept", "value"], max_paths=100))
    return t


COMP = [S1, AB, ("maybe", S2), ("many", S1), PURE, P_, alt(S1, S2), ("attempt", AB), UNEXP, EOF,
        ("seq", ("many", S3), S1), ("pure", None), ("maybe", AB)]


def c01(tier):
    t = []
    pairs = [(a, b) for a in COMP for b in COMP]
    for i, (a, b) in enumerate(pairs):
        for j, c in enumerate([ctx_rest, ctx_alt, ctx_in]):
            if tier == "thorough" or (i + j) % 3 == 0:
                t.append(plain(c(("seq", a, b)), 4, PLAIN))
    for v in ("seql", "seqr", "seqm", "seqlm", "seqrm", "seqlf", "seqrf"):
        for i, (a, b) in enumerate(pairs):
            if tier == "thorough" or (i + len(v)) % 7 == 0:
                t += both(ctx_rest((v, a, b)), 4, PLAIN, 3)
    for v in ("between", "betweenf"):
        for o, c, g in [(S1, S2, S3), (AB, S1, S2), (("maybe", S1), S2, AB), (S1, PURE, ("many", S2)),
                        (S1, S2, ("maybe", AB)), (("many", S1), ("many", S2), P_), (UNEXP, S1, S2),
                        (S1, EOF, P_), (("attempt", AB), S1, S1), (P_, P_, Q_)]:
            t += both(ctx_rest((v, o, c, g)), 4, PLAIN, 4)
            t.append(plain(ctx_alt((v, o, c, g)), 4, PLAIN))
    mix = [S1, P_, ("maybe", S2), ("many", S3), AB, PURE, ("sym", 0), ANY]
    for k in range(2, 9):
        # a composite in the first, a middle and the last place of every arity
        for i in sorted({0, k // 2, k - 1}):
            for x in (AB, ("many", AB), ("then", S1, S2, S3), ("pure", ())):
                parts = tuple(x if j == i else ("sym", j) for j in range(k))
                for op in ("then", "apply"):
                    if i == 0 and x[0] == "then":
                        continue          # a.then(b).then(c) is one chain, not a chain within a chain
                    t.append(plain(ctx_rest((op,) + parts), None, PLAIN, fix=sum(
                        [[1, 2, 3][:{"then": 3, "pure": 0}.get(x[0], 2)] if j == i else [j] for j in range(k)], [])[:-1] + [X, X]))
        for r in range(0, 8, 1 if tier == "thorough" else 2):
            parts = tuple((mix[(i + r) % 8]) for i in range(k))
            for op in ("then", "apply"):
                t.append(plain(ctx_rest((op,) + parts), 9, PLAIN))
                t.append(plain(ctx_alt((op,) + parts), min(k + 2, 7), PLAIN))
        for op in ("then", "apply"):
            t.append(plain(ctx_rest((op,) + (ANY,) * k), k + 1, PLAIN))
            t.append(rec(("seq", (op,) + (ANY,) * k, EOF), k + 1, ["accept", "value"]))
            g, some = (op,) + tuple(("sym", i) for i in range(k)), list(range(k))
            t.append(rec(g, k, ["accept", "value"], ins=2, lo=k - 1, max_paths=100) if k < 5 else
                     rec(g, None, ["accept", "value"], ins=2, fix=some[:k // 2] + [X] + some[k // 2 + 1:-1] + [X]))
            for i in range(0, k, 2):
                t.append(rec(g, None, ["accept", "value"], ins=2, fix=some[:i] + some[i + 1:] + [X]))
                t.append(rec(g, None, ["accept", "value"], ins=1, fix=some[:i] + [X, X] + some[i + 1:]))
    t += both(ctx_rest(("seq", ("seq", AB, P_), ("seq", S3, ("seq", ANY, S1)))), 7 if tier == "thorough" else 6, PLAIN)
    t += both(ctx_rest(("seql", ("seqr", AB, P_), ("seqr", S3, ("seql", ANY, S1)))), 7 if tier == "thorough" else 6, PLAIN)
    # repaired values are composed the same way
    for v in ("seq", "seql", "seqr", "seqlf"):
        for a in (S1, AB, ("many", S1), ("rw", S2, "w")):
            for b in (S2, ("sym", 0), ("maybe", S3), ("recover", S3)):
                t.append(rec(("seq", (v, a, b), EOF), 3, ["accept", "value"]))
    for o, c, g in [(S1, S2, S3), (AB, S1, ("rw", P_, 0)), (S1, ("recover", S2), ("many", S3))]:
        t.append(rec(("seq", ("between", o, c, g), EOF), 4, ["accept", "value"]))
    t += long_plain(PLAIN)
    t += opaques(PLAIN)
    for g, m in randoms("C01", 60 if tier == "quick" else 600, 3):
        t.append(plain(ctx_rest(g), 4, PLAIN))
    t += owned(t, tier, 12)
    t += stretch("plain", PLAIN, (300, 1100), ("list", "deep"))
    t += specials(PLAIN, "seq")
    return t


ALTS = [S1, S2, AB, ("attempt", AB), ("maybe", S1), ("many", AB), PURE, P_, UNEXP, ("seq", ("maybe", S3), S1),
        ("attempt", ("seq", P_, S2)), ("label", AB, "AB"), EOF, ("seq", ("attempt", AB), S3),
        ("attempt", alt(AB, S3)), ("recover", AB), ("rw", AB, 0)]


def c02(tier):
    t = []
    for i, a in enumerate(ALTS):
        for j, b in enumerate(ALTS):
            for k, c in enumerate([ctx_rest, ctx_next, ctx_alt]):
                if tier == "thorough" or (i + j + k) % 3 == 0:
                    t.append(plain(c(alt(a, b)), 4, PLAIN))
            if tier == "thorough" or (i + 2 * j) % 5 == 0:
                t.append(rec(ctx_rest(alt(a, b)), 3, ["accept"]))
                t.append(plain(ctx_rest(("altf", a, b)), 3, PLAIN))
    for a in ALTS + COMP:
        for w in ("maybe", "attempt"):
            for c in CTX:
                t.append(plain(c((w, a)), 4, PLAIN))
            t.append(rec(ctx_rest((w, a)), 3, ["accept"]))
            t.append(plain(ctx_rest((w, (w, a))), 3, PLAIN))
            t.append(plain(ctx_rest(("maybe", ("attempt", ("seq", a, ("sym", 9))))), 4, PLAIN))
            t.append(plain(ctx_rest(alt(("attempt", ("seq", a, ("sym", 9))), a)), 4, PLAIN))
    for a, b, c, d in [(S1, S2, S3, AB), (("attempt", AB), ("attempt", ("seq", S1, S3)), S1, ANY),
                       (UNEXP, EOF, PURE, S1), (("seq", S1, S1), S1, ("maybe", S2), ANY),
                       (("attempt", ("seq", S1, ("attempt", AB))), ("attempt", ("seq", S1, S2)), S3, P_)]:
        for x in (alt(a, b, c), alt(a, b, c, d), alt(alt(a, b), alt(c, d)), alt(a, alt(b, alt(c, d)))):
            t += both(ctx_rest(x), 4, PLAIN, 4)
            t.append(plain(ctx_next(x), 4, PLAIN))
            if not nullable(x):
                t += both(ctx_many(x), 4, PLAIN, 3)
    for A, B in ((("aligned", ("lit", "x")), ("lit", "x")), (("indented", 1, ("lit", "x")), ("re", "[xy]")),
                 (("block", ("aligned", ("lit", "x"))), ("lit", "y"))):
        a = ("attempt", ("seq", A, B))
        for y in (a, ("maybe", a), alt(a, A), alt(a, ("attempt", A)), ("many", a), ("maybe", A), alt(A, B)):
            for g in (alt(y, ("block", y)), ("seq", ("maybe", y), ("block", y)), ("block", ("seq", ("re", " ?"), alt(y, ("block", y))))):
                t.append(plain(("seq", ("re", " *"), g), 3, PLAIN, w="text", alphabet="x y", hc=1))
                t.append(rec(("seq", ("re", " *"), g), 3, ["accept"], w="text", alphabet="x y", hc=1))
    # the position decides, not what the user's own locations say
    for i, a in enumerate(ALTS + COMP):
        for j, x in enumerate((alt(a, ANY), alt(("attempt", ("seq", a, ("sym", 9))), a), ("maybe", a),
                               ("maybe", ("attempt", ("seq", a, ("sym", 9)))), alt(S3, a), ("altf", a, AB))):
            if (i + j) % 2 == 0 or tier == "thorough":
                t.append(plain(ctx_rest(x), 3, PLAIN, w="own"))
    t += long_plain(PLAIN)
    t += opaques(PLAIN)[::3]
    for g, m in randoms("C02", 150 if tier == "quick" else 1200, 3):
        t.append(plain(ctx_rest(g), 4, PLAIN))
        t.append(rec(ctx_rest(g), 3, ["accept"]))
    t += stretch("plain", PLAIN, (300, 1100), ("wrap", "deep"))
    t += kin(PLAIN, ["accept"], 3)
    t += specials(PLAIN, "alt")
    return t


ITEMS = [S1, ("sym", 0), AB, P_, alt(S1, AB), alt(AB, S3), ("attempt", AB), ("seq", ("maybe", S3), S1),
         ("label", AB, "AB"), ("seq", S1, ("many", S2)), ANY, ("rw", AB, 0), ("recover", S1),
         ("many", AB), ("fmap", S1, "x"), ("bind", ANY, "same"), ("seq", S1, ("maybe", AB))]
EMPTY = [PURE, ("maybe", S1), ("many", S1), ("seq", ("maybe", S1), ("maybe", S2)), alt(AB, PURE),
         ("attempt", ("maybe", AB)), ("label", ("maybe", S1), "m"), EOF, ("recover", ("maybe", S1)),
         ("rw", ("maybe", S1), 4), ("seq", ("many", S2), ("maybe", AB)), alt(S1, S2, PURE)]


def c03(tier):
    t = []
    for a in ITEMS:
        e = nullable(a)
        for c in CTX:
            t.append(plain(c(("many", a)), 5, PLAIN))
        t.append(plain(ctx_rest(("many", a)), 6, PLAIN))
        t.append(rec(ctx_rest(("many", a)), 4, ["accept"]))
        for s in [S3, ("seq", S3, S2), ("maybe", S3), ("attempt", ("seq", S3, S2)), S1, ("many", S3), UNEXP, Q_,
                  ("recover", S3)]:
            t.append(plain(ctx_rest(("sepby", a, s)), 5, PLAIN))
            if tier == "thorough":
                t.append(plain(ctx_alt(("sepby", a, s)), 5, PLAIN))
                t.append(plain(ctx_next(("sepby", a, s)), 5, PLAIN))
        t.append(rec(ctx_rest(("sepby", a, S3)), 4, ["accept"]))
    for a in EMPTY:
        for c in (ctx_rest, ctx_alt):
            t += both(c(("many", a)), 4, PLAIN, 3)
        t += both(ctx_rest(("sepby", a, S3)), 4, PLAIN, 3)
        t += both(ctx_rest(("sepby", S3, a)), 4, PLAIN, 3)
        t += both(ctx_rest(("sepby", a, ("maybe", S3))), 4, PLAIN, 3)
        t += both(("seq", ("maybe", ("seq", S3, ("many", a))), REST), 3, PLAIN)
        # deeper: the empty item appears after several proper ones
        t.append(plain(ctx_rest(("many", alt(AB, a))), 6, PLAIN))
    for k in (40, 70, 130):
        t.append(plain(("many", ANY), k, PLAIN, lo=k))
        t.append(rec(("many", ANY), k, ["accept"], lo=k))
        t.append(plain(("sepby", ANY, ANY), k + 1, PLAIN, lo=k + 1))
        t.append(plain(ctx_rest(("sepby", S1, S2)), None, PLAIN, fix=[1, 2] * k + [X, X]))
        t.append(plain(ctx_rest(("many", AB)), None, PLAIN, fix=[1, 2] * (k // 2) + [X, X]))
        t.append(rec(ctx_rest(("many", AB)), None, ["accept"], fix=[1, 2] * (k // 2) + [X, X]))
    for k in (8, 12):
        t.append(plain(ctx_rest(("many", S1)), k, PLAIN))
        t.append(rec(ctx_rest(("many", S1)), k, ["accept"]))
        t.append(plain(ctx_rest(("many", AB)), k, PLAIN))
        t.append(plain(ctx_rest(("sepby", S1, S2)), k, PLAIN))
        t.append(plain(ctx_rest(("sepby", P_, S3)), min(k, 8), PLAIN))
        t.append(rec(ctx_rest(("sepby", S1, S2)), k, ["accept"]))
        t.append(plain(ctx_rest(("many", ANY)), k, PLAIN))
    # every list is a new one, which the user may extend
    for a in (S1, AB, P_, ("seq", S1, ("grow", ("many", S2)))):
        for l in (("grow", ("many", a)), ("grow", ("sepby", a, S3)), ("many", ("seq", S2, ("grow", ("many", a)))),
                  ("seq", ("grow", ("many", a)), ("seq", S3, ("grow", ("sepby", a, S2)))), alt(("grow", ("grow", ("many", a))), REST)):
            t += both(ctx_rest(l), 4, PLAIN, 3)
    # repaired lists keep every item
    for a in (AB, alt(AB, S3), ("rw", AB, "w"), ("seq", S1, ("recover", S2))):
        t.append(rec(("seq", ("many", a), EOF), 4, ["accept", "value"]))
        t.append(rec(("seq", ("sepby", a, ("sym", 0)), EOF), 4, ["accept", "value"]))
    t.append(rec(("seq", ("many", AB), EOF), None, ["accept", "value"], fix=[1, 2, 1, X, 1, 2, 1, X]))
    t.append(rec(("seq", ("sepby", AB, S3), EOF), None, ["accept", "value"], fix=[1, 2, 3, 1, 2, 3, 1, X, 3, 1, 2]))
    t += opaques(PLAIN)[1::3]
    for g, m in randoms("C03", 60 if tier == "quick" else 500, 2):
        t.append(plain(ctx_rest(("many", g)), 5, PLAIN))
        t.append(plain(ctx_rest(("sepby", g, S3)), 5, PLAIN))
        t.append(rec(ctx_rest(("many", g)), 3, ["accept"]))
    t += [plain(ctx_rest(("many", ("re", p))), 4, VERDICT, w="text", alphabet="a1 ")
          for p in ("a*", "a", "a?b", "[0-9]+", "[^a]", " *", "(?=a)")]
    t += owned(t, tier, 6)
    t += stretch("plain", PLAIN, (300, 1100, 5200), ("list", "wrap")) + stretch("rec", ["accept"], (300, 1100), ("list", "wrap"))
    t += specials(PLAIN, "list")
    return t


OPERANDS = [S1, ANY, AB, P_, alt(AB, S3), ("label", S1, "num"), ("attempt", AB), ("maybe", S1), ("many", S1),
            ("between", S3, S3, S1), ("fmap", S1, "x"), ("pure", 4)]
OPERATORS = [("sym", 7), alt(("sym", 7), ("sym", 8)), ("seq", ("sym", 7), ("sym", 8)), Q_,
             ("attempt", ("seq", ("sym", 7), ("sym", 8))), ("maybe", ("sym", 7)), ("label", ("sym", 7), "op"), ANY]


def c04(tier):
    t = []
    for ch in ("chainl", "chainr"):
        for a in OPERANDS:
            for o in OPERATORS:
                g = (ch, a, o)
                t.append(plain(ctx_rest(g), 5, PLAIN))
                if tier == "thorough":
                    t.append(plain(ctx_alt(g), 5, PLAIN))
                    t.append(plain(ctx_next(g), 5, PLAIN))
                    t.append(rec(ctx_rest(g), 4, ["accept"]))
            t.append(plain(ctx_alt((ch, a, ("sym", 7))), 4, PLAIN))
            t.append(rec(ctx_rest((ch, a, ("sym", 7))), 4, ["accept"]))
        # every operand and operator arbitrary, many of them
        for n in (1, 3, 5, 7, 9, 11, 13):
            t.append(plain(ctx_rest((ch, ANY, ANY)), n, PLAIN, lo=n))
            t.append(rec(ctx_rest((ch, ANY, ANY)), n, ["accept"], lo=n))
        t.append(plain(ctx_rest((ch, ANY, alt(("sym", 7), ("sym", 8)))), 7, PLAIN))
        t.append(plain(ctx_rest((ch, (ch, ANY, ("sym", 8)), ("sym", 7))), 7, PLAIN))
        t.append(plain(ctx_rest((ch, ("chainr" if ch == "chainl" else "chainl", ANY, ("sym", 8)), ("sym", 7))),
                       7, PLAIN))
        for a, o in ((S1, ("sym", 7)), (("rw", S1, "w"), ("sym", 7)), (S1, ("recover", ("sym", 7))),
                     (AB, alt(("sym", 7), ("sym", 8)))):
            t.append(rec(("seq", (ch, a, o), EOF), 4, ["accept", "value"]))
        t.append(rec(("seq", (ch, S1, ("sym", 7)), EOF), None, ["accept", "value"], fix=[1, 7, X, 7, 1, 7, 1]))
        t.append(rec(("seq", (ch, S1, Q_), EOF), None, ["accept", "value"], fix=[1, X, 1, X, 1, X, 1]))
    # one and the same function for every operator
    for ch in ("chainlc", "chainrc"):
        for a in OPERANDS:
            t.append(plain(ctx_rest((ch, a, ("sym", 7))), 5, PLAIN))
        for n in (3, 5, 7, 9, 11, 13):
            t.append(plain(ctx_rest((ch, ANY, ANY)), n, PLAIN, lo=n))
            t.append(rec(ctx_rest((ch, ANY, ANY)), n, ["accept"], lo=n))
        t.append(rec(("seq", (ch, S1, ("sym", 7)), EOF), 4, ["accept", "value"]))
    # every operator function is applied once
    for ch in ("chainl", "chainr"):
        for a in OPERANDS + [("fmap", S1, "x"), ("chainl", ANY, ("sym", 8)), ("chainr", S1, ("sym", 8))]:
            for o in OPERATORS:
                t.append(dict(h="calls", g=ctx_rest((ch, a, o)), n=5))
        for n in (7, 9, 11, 13, 41):
            t.append(dict(h="calls", g=(ch, ANY, ANY), n=n, lo=n))
            t.append(dict(h="calls", g=(ch, ("fmap", ANY, "x"), ANY), n=n, lo=n))
    # operator functions whatever they return
    for ch in ("chainlv", "chainrv"):
        for kind in ("none", "first", "second", "zero", "empty", "false", "pair", "flat", "list", "text", "fn", "opq"):
            for a in (ANY, ("opq", ANY), ("as", S1, None), ("as", S1, 0), ("many", S1)):
                t.append(plain(ctx_rest((ch, a, ("sym", 7), kind)), 5, PLAIN))
                t.append(rec(ctx_rest((ch, a, ("sym", 7), kind)), 5, ["accept"]))
            t.append(plain(("seq", (ch, (ch, ANY, ("sym", 8), kind), ("sym", 7), kind), EOF), 5, PLAIN))
            t.append(rec(("seq", (ch, S1, ("sym", 7), kind), EOF), 4, ["accept", "value"], max_paths=100))
    # operator functions that are objects which are false
    for ch in ("chainl", "chainr"):
        for a in OPERANDS:
            t += [dict(x, odd=1) for x in both(ctx_rest((ch, a, ("sym", 7))), 3, PLAIN)]
    # long chains
    for ch in ("chainl", "chainr", "chainlc", "chainrc"):
        for n in (41, 67, 131):
            t.append(plain((ch, ANY, ANY), n, PLAIN, lo=n))
            t.append(rec((ch, ANY, ANY), n, ["accept"], lo=n))
        t.append(plain((ch, S1, alt(("sym", 7), ("sym", 8))), None, PLAIN, fix=[1, 7, 1, 8] * 10 + [1, X, 1]))
    t += [plain(g, None, PLAIN, fix=f) for g, f in LONG if g is EXPR or g is STMTS]
    t += owned(t, tier, 6)
    t += stretch("plain", PLAIN, (300, 1100, 2600), ("chain",)) + stretch("rec", ["accept"], (300, 1100), ("chain",))
    return t


FM = [S1, AB, ("maybe", S1), ("many", AB), PURE, UNEXP, P_, alt(AB, S3), ("attempt", AB), EOF, ("recover", AB)]


def c05(tier):
    t = []
    for a in FM:
        for v in ("fmap", "fmapf"):
            for c in CTX:
                t.append(plain(c((v, a, "x")), 4, PLAIN))
            t.append(plain(ctx_rest((v, (v, a, "x"), "y")), 3, PLAIN))
            t.append(rec(ctx_rest((v, a, "x")), 3, ["accept"]))
        for v in ("bind", "bindf"):
            for b in FM:
                t.append(plain(ctx_rest((v, a, "then", b)), 4, PLAIN))
                t.append(plain(ctx_alt((v, a, "then", b)), 4, PLAIN))
                t.append(rec(ctx_rest((v, a, "then", b)), 3, ["accept"]))
                t.append(plain(ctx_in((v, a, "then", b)), 4, PLAIN))
        for n in ("pure", "purefn"):
            for x in (0, None, "", 5):
                t += both(ctx_rest(("seq", (n, x), a)), 3, PLAIN)
                t.append(plain(ctx_alt(("seq", a, (n, x))), 3, PLAIN))
        t += both(ctx_alt(("seq", a, ("unexp", "l"))), 3, PLAIN)
        for d in ("delay", "delay2", "delay3"):
            for c in (ctx_rest, ctx_alt, ctx_in):
                t.append(plain(c((d, a)), 4, PLAIN))
            t.append(rec(ctx_rest((d, a)), 3, ["accept"]))
            if not nullable(a):
                t.append(plain(ctx_rest(("many", (d, a))), 4, PLAIN))
        t.append(dict(h="delay", g=a, n=2 if tier == "quick" else 3, max_paths=6000))
    for v in ("bind", "bindf"):
        t += both(ctx_rest((v, ANY, "same")), 4, PLAIN)
        t += both(ctx_rest(("seq", (v, ANY, "same"), (v, ANY, "same"))), 5, PLAIN)
        t += both(ctx_rest((v, ANY, "if", 1, S2, ("seq", S3, S3))), 4, PLAIN)
        t += both(ctx_alt((v, ("maybe", S1), "if", None, S2, S3)), 4, PLAIN)
        t += both(ctx_rest(("many", (v, P_, "same"))), 5, PLAIN)
    ONES = alt(("as", S1, 1), ("as", S2, True), ("as", S3, 1.0))
    for v in ("bind", "bindf"):
        t += both(ctx_rest(("many", (v, ONES, "type"))), 4, PLAIN)
        t += both(ctx_rest(("seq", (v, ONES, "type"), (v, ONES, "type"))), 4, PLAIN)
        t.append(rec(("seq", ("seq", (v, ONES, "type"), (v, ("rw", S1, True), "type")), EOF), 2, ["accept", "value"]))
    F_ = ("purefn", 0)
    for g in (F_, ("seq", F_, F_), ("many", ("seq", S1, F_)), ("seq", ("maybe", S1), F_), ("seq", F_, ("seq", S1, F_)),
              alt(("seq", S1, F_), F_), ("sepby", ("seq", F_, S1), S2), ("delay", ("seq", F_, S1)), ("attempt", ("seq", F_, S1)),
              ("share", "p", F_), ("seq", ("share", "p", F_), ("seq", S1, ("share", "p", F_))), ("bind", F_, "then", ("seq", S1, F_))):
        t.append(dict(h="fresh", g=g, n=3))
    for box in ("fmapbox", "bindbox", "rwfbox"):
        for a in (S1, ANY, P_, ("as", ANY, 1), PURE, ("seq", S1, S2)):
            x = (box, a)
            for g in (("seq", x, x), ("seq", ("share", "p", x), ("share", "p", x)), ("seq", x, ("seq", S2, x)), alt(("attempt", ("seq", x, S3)), ("seq", x, x)),
                      ("seq", ("maybe", x), x)) + ((("many", x), ("sepby", x, S2)) if a is not PURE else ()):
                t.append(dict(h="fresh", g=g, n=3))
    # recursion
    for g, n in [(("rec", "x", alt(("between", S1, S2, ("var", "x")), S3)), 7),
                 (("rec", "x", ("maybe", ("seq", S1, ("var", "x")))), 7),
                 (("rec", "x", ("maybe", ("seq", S1, ("seq", ("var", "x"), S2)))), 6),
                 (("rec", "x", alt(("seq", S1, ("many", ("var", "x"))), S2)), 5), (JSON, 4), (EXPR, 4),
                 (("rec", "x", ("rec", "y", alt(("seq", S1, ("var", "x")), ("seq", S2, ("var", "y")), S3))), 5),
                 (("rec", "x", alt(("seq", S1, ("rec", "y", ("maybe", ("seq", S2, ("seq", ("var", "x"), ("var", "y")))))), S3)), 5),
                 (("rec", "x", ("delay3", alt(("seq", S1, ("delay", ("var", "x"))), S3))), 5),
                 (("rec", "x", ("sepby", alt(("between", S1, S2, ("var", "x")), S3), ("sym", 4))), 5),
                 (("rec", "x", ("bind", ANY, "if", 1, ("var", "x"), PURE)), 4)]:
        t += both(ctx_rest(g), n, PLAIN, min(n, 4))
    # repairs go through fmap and bind
    for g in (("fmap", AB, "x"), ("bind", S1, "then", S2), ("bind", ANY, "same"), ("delay", AB),
              ("bind", ("rw", P_, 3), "same"), ("bind", ("recover", S1), "if", 1, S2, S3)):
        t.append(rec(("seq", g, EOF), 3, ["accept", "value"]))
    # how often, and with what, functions are called
    for i, a in enumerate(FM + [("rec", "x", ("maybe", ("seq", S1, ("var", "x")))), ("seq", F_, S1), ("sepby", S1, S2)]):
        for j, c in enumerate((("fmap", a, "x"), ("fmap", ("fmap", a, "x"), "y"), ("bind", a, "then", S2), ("bind", a, "type"), ("seq", ("fmap", a, "x"), F_),
                               alt(("fmap", a, "x"), ("fmap", S2, "y")), ("maybe", ("fmap", a, "x")), ("attempt", ("fmap", a, "x")), ("label", ("fmap", a, "x"), "L"),
                               ("recover", ("bind", a, "type")), ("rw", ("fmap", a, "x"), 0), ("delay", ("fmap", a, "x")),
                               alt(("attempt", ("seq", ("fmap", a, "x"), S3)), ("fmap", a, "y")), ("then", ("fmap", a, "x"), F_, ("fmap", a, "y")))):
            for q in (ctx_rest, ctx_alt):
                t.append(dict(h="calls", g=q(c), n=4))
            if not nullable(c):
                t.append(dict(h="calls", g=ctx_rest(("many", c)), n=4))
                t.append(dict(h="calls", g=ctx_rest(("sepby", c, ("fmap", S3, "s"))), n=4))
    for i in range(60 if tier == "quick" else 400):
        t.append(dict(h="calls", g=ctx_rest(("fmap", Gen("C05c/%d" % i).g(3), "x")), n=3))
    t += long_plain(PLAIN)
    t += opaques(PLAIN)[2::3]
    for g, m in randoms("C05", 40 if tier == "quick" else 400, 3):
        t.append(plain(ctx_rest(("fmap", ("delay", g), "r")), 3, PLAIN))
    t += stretch("plain", PLAIN, (300, 1100), ("wrap", "deep")) + stretch("calls", None, (300, 1100), ("wrap", "chain"))
    t += kin(PLAIN, ["accept", "value"])
    t += specials(PLAIN, "map")
    return t


TP = [("lit", "a"), ("lit", "ab"), ("lit", "aab"), ("lit", "\n"), ("lit", "é"), ("re", "a"), ("re", "a*"), ("re", "ab|a"),
      ("re", "a(.)", 1), ("re", "(a)|(b)", 2), ("re", "(?P<x>a+)b?", "x"), ("re", "a(?=b)"), ("re", "[0-9]+"),
      ("re", "[^a]"), ("re", "\\w\\s?"), ("re", ""), ("re", "(a)?b", 1), ("re", "(a)?", 1), ("re", "b|(a)|", 1), ("re", "a{2,3}?"), ("re", "a$"), ("re", "^a"),
      ("re", "()"), ("re", "(?:a|b)+"), ("re", "a(b?)", 1), ("re", "(b?)a", 1), ("re", "(?P<x>a?)b?", "x"), ("re", "a()", 1), ("re", "(?P<x>b)?a", 0), ("re", "\\ba"), ("re", "a\\b"),
      ("re", "(?<=a)b"), ("re", "(?<!a)b"), ("re", "(?m)^a"), ("re", "(.)\\1"), ("re", "(?i)a[b-c]"), ("re", "(?s)a.b?"), ("re", "(?a)\\w"), ("sym", "a"), ("letter",), ("digit",), EOF, ANY, ("not", "\n")]

PRIMS = [S1, ("sym", 0), ("sym", 1, "lab"), P_, ANY, ("none",), EOF, ("not", 3), ("sym", None), ("sym", "x")]


def far(asp, tier):
    """The place to skip to may lie far ahead."""
    t = []
    for k in (15, 31, 32, 33, 64, 100, 128, 256, 300) if tier == "thorough" else (20, 40, 80, 140, 300):
        for p in (S1, ("sym", 1, "one"), P_, AB, ("rw", S1, 0), alt(S1, S2), ("many", AB), ("not", 9)):
            t.append(rec(("seq", p, EOF), None, asp, fix=[9] * k + [1, X], max_paths=60))
            t.append(rec(("seq", S1, ("seq", p, S2)), None, asp, fix=[1] + [9] * k + [X, 2], max_paths=60))
        t.append(rec(("seq", S1, EOF), None, asp, fix=[1] + [9] * k, max_paths=60))
        t.append(rec(("seq", ("tok", "b"), EOF), None, asp, w="lexed", fix=["a"] * k + [X, X], max_paths=60))
        for p in (("lit", "b"), ("lit", "ab"), ("lit", "ba\n"), ("re", "b"), ("re", "a?b"), ("re", "(b)|a", 1), ("letter",), ("digit",),
                  ("sym", "b"), ("lit", "xab")):
            t.append(rec(("seq", p, EOF), None, asp, w="text", plainloc=1, fix=list("xx\n" * (k // 3)) + ["a", X, X, X], max_paths=100))
            t.append(rec(("seq", ("lit", "b"), ("seq", p, EOF)), None, asp, w="text", plainloc=1, fix=["b"] + ["x"] * k + [X, X], max_paths=60))
    return t


def overlaps(asp, n):
    """Literals whose beginning overlaps their next occurrence."""
    t = []
    for s in ("ab", "aab", "aba", "abab", "aa", "aaa"):
        for g in (("seq", ("lit", s), EOF), ("seq", ("lit", "b"), ("seq", ("lit", s), EOF)), ("many", ("lit", s)), ("lit", s),
                  ("seq", ("re", s), EOF)):
            t.append(rec(g, n, asp, w="text", plainloc=1, lo=n, alphabet="abx"))
            t.append(rec(g, n, asp, w="text", plainloc=1, lo=n, alphabet="abx", ins=0))
    return t


def primctx(h, tier, asp=None, attempt=True, whole=False):
    """Every primitive in contexts that show what it consumed, expected and how it is repaired."""
    t = []
    kw = {} if asp is None else {"asp": asp}
    for text, ps in ((False, PRIMS), (True, TP)):
        bang = ("lit", "!") if text else ("sym", 9)
        w = dict(w="text", plainloc=1, **kw) if text else kw
        for i, p in enumerate(ps):
            cs = [("seq", p, EOF), ("seq", p, bang), alt(("seq", p, bang), REST), ("seq", ("maybe", ("seq", p, bang)), REST),
                  ("seq", ("label", p, "L"), bang), ("seq", ("rw", p, "v"), bang), ("seq", bang, ("seq", p, EOF)),
                  alt(("seq", bang, bang), ("recover", p)), ("seq", ("seq", p, p), EOF),
                  ("seq", ("many", ("seq", p, bang)), EOF)]
            if attempt:
                cs.append(alt(("attempt", ("seq", p, bang)), ("seq", p, ("seq", p, EOF))))
            for j, c in enumerate(cs):
                t.append(dict(h=h, g=c, n=3 if tier == "quick" else 4, ins=2 if j % 2 else "sym", lo=0, **w))
    return t


def c06(tier):
    t = []
    # opaque elements: what equals what is arbitrary, nothing is hashable
    for p in PRIMS + [("sym", ""), ("sym", 1.5), ("sym", True), ("sym", None, "nil")]:
        for c in (ctx_bare, ctx_rest, ctx_alt, lambda g: ("seq", ANY, ctx_alt(("seq", g, EOF))),
                  lambda g: ("seqr", ANY, ("seqr", ANY, ctx_rest(g)))):
            t.append(plain(c(p), 3, PLAIN, w="objs"))
            t.append(rec(c(p), 3, ["accept"], w="objs"))
        t.append(rec(("seq", p, ("seq", REST, EOF)), 3, ["accept", "value"], w="objs"))
    for p in PRIMS:
        for k in range(0, 5):
            skip = ("pure", None)
            for _ in range(k):
                skip = ("seqr", skip, ANY)
            for c in (ctx_rest, ctx_alt, ctx_next):
                t.append(plain(("seqr", skip, c(p)), k + 2, PLAIN))
                t.append(rec(("seqr", skip, c(p)), k + 2, ["accept"]))
            t.append(plain(alt(("seq", p, p), ("seqr", skip, REST)), k + 2, PLAIN))
            if k < 3:
                # under recovery a primitive that is skipped to consumes exactly what it matches
                t.append(rec(("seq", ("seqr", skip, p), ("seq", REST, EOF)), k + 3, ["accept", "value"]))
    t += bigs([c(p) for p in PRIMS[:9] for c in (ctx_rest, ctx_alt, ctx_next)] + [("seq", p, ("seq", REST, EOF)) for p in PRIMS[:9]], 3, PLAIN,
              ["accept", "value"])
    n = 4 if tier == "quick" else 5
    for p in TP:
        for k in range(0, 3):
            skip = ("pure", None)
            for _ in range(k):
                skip = ("seqr", skip, ANY)
            for c in (ctx_rest, ctx_alt):
                t.append(plain(("seqr", skip, c(p)), n, PLAIN, w="text", lo=0, plainloc=1))
            t.append(rec(("seqr", skip, ctx_rest(p)), 3, ["accept"], w="text", lo=0, plainloc=1))
            # did it consume?
            g = ("seqr", skip, alt(("seq", p, ("lit", "!")), REST))
            t += both(g, 3, PLAIN, w="text", lo=0, plainloc=1)
            if k < 2:
                t.append(rec(("seq", ("seqr", skip, p), ("seq", REST, EOF)), 3, ["accept", "value"], w="text",
                             lo=0, plainloc=1))
        t.append(plain(ctx_next(p), n, PLAIN, w="text", plainloc=1))
        t += both(("seq", ("maybe", ("seq", p, ("lit", "!"))), REST), 3, PLAIN, w="text", lo=0, plainloc=1)
        if not nullable(p):
            t += both(ctx_rest(("many", p)), 4, PLAIN, 3, w="text", plainloc=1)
    t += stretch("plain", FULL, (300, 1100), ("wrap",))
    # a long match
    for k in (300, 1100, 2600) if tier == "quick" else (300, 1100, 2600, 5200, 10300):
        for p in (("re", "a*"), ("re", "(?:a|b)+"), ("re", "(?P<x>a+)b?", "x"), ("re", "[^b]*b"), ("re", "(?s).*"), ("re", "a*?b"), ("re", "(a*)b*", 1), ("lit", "a" * k)):
            t.append(plain(("seq", p, REST), None, FULL, w="text", plainloc=1, fix=["a"] * k + [X, X], max_paths=50))
            t.append(rec(("seq", p, ("seq", REST, EOF)), None, ["accept", "value"], w="text", plainloc=1, fix=["b"] + ["a"] * k + [X], max_paths=50))
            t.append(plain(("seq", ("many", alt(("lit", "a"), ("lit", "c"))), ("seq", p, REST)), None, FULL, w="text", plainloc=1,
                           fix=["a"] * k + [X, X], max_paths=50) if p[0] == "lit" else
                     plain(("seq", ("lit", "c"), ("seq", p, REST)), None, FULL, w="text", plainloc=1, fix=["c"] + ["a"] * k + [X, X], max_paths=50))
    t += kin(FULL, RALL)
    return t


LAB = [("label", S1, "L"), ("label", AB, "L"), ("label", ("maybe", AB), "L"), ("label", ("many", S1), "L"),
       ("label", alt(AB, S3), "L"), ("label", PURE, "L"), ("label", ("label", S1, "in"), "out"), ("label", S1, ""),
       ("label", ("seq", ("maybe", S3), S1), "L"), ("label", ("attempt", AB), "L"), ("label", UNEXP, "L"),
       ("label", EOF, "L"), ("label", P_, "L")]
EXPS = [S1, AB, ("maybe", S1), ("maybe", AB), ("many", S1), ("many", AB), ("sepby", S1, S2), alt(S1, S2), alt(AB, S3),
        P_, PURE, UNEXP, EOF, ("attempt", AB), ("chainl", S1, S2), ("sym", 1, "one"), ("seq", ("maybe", S3), S1)]


def c07(tier):
    t = []
    E = EXPS + LAB
    for i, a in enumerate(E):
        for c in CTX + [ctx_maybe]:
            t.append(plain(c(a), 4, FULL))
        for j, b in enumerate(E):
            if tier == "thorough" or (i + j) % 2 == 0:
                t.append(plain(ctx_next(("seq", a, b)), 4, FULL))
            if tier == "thorough" or (i + j) % 2 == 1:
                t.append(plain(ctx_next(alt(a, b)), 4, FULL))
            if tier == "thorough" or (i + j) % 4 == 2:
                t.append(plain(("seq", ("seqr", S3, a), ("seq", b, EOF)), 4, FULL))
                t.append(plain(("seq", ("label", ("seq", a, b), "both"), EOF), 4, FULL))
    for g in (("seq", ("maybe", S1), ("seq", ("maybe", S2), ("seq", ("many", S3), EOF))),
              alt(S1, S2, S3, ("sym", 4), ("sym", 5)), alt(S1, ("sym", 1, "1"), S1),
              ("seq", ("many", alt(AB, S3)), ("seq", ("maybe", AB), EOF)),
              ("seq", ("maybe", S1), ("seq", ("label", ("seq", ("maybe", S2), S3), "lab"), EOF)),
              ("label", ("seq", ("maybe", S1), ("seq", ("maybe", S2), S3)), "whole"),
              ("seq", ("sepby", ("label", S1, "item"), S2), EOF),
              ("bind", ("maybe", S1), "then", ("seq", ("maybe", S2), S3)),
              ("seq", ("bind", ANY, "same"), EOF),
              ("seq", PURE, ("seq", ("maybe", S1), ("seq", PURE, S2)))):
        t.append(plain(g, 5, FULL))
    t += long_plain(FULL)
    for g, m in randoms("C07", 400 if tier == "quick" else 3000, 3):
        t.append(plain(ctx_next(g), 3, FULL))
        t.append(plain(("seq", g, EOF), 4, FULL))
    for g, m in randoms("C07d", 60 if tier == "quick" else 600, 4):
        t.append(plain(("seq", g, EOF), 4, FULL))
    for g, m in randoms("C07t", 80 if tier == "quick" else 500, 3, text=True):
        t.append(plain(("seq", g, EOF), 4, FULL, w="text", plainloc=1))
    t += stretch("plain", FULL, (300, 1100))
    t += kin(FULL, ["accept"])
    return t


def c08(tier):
    t = [dict(h="message", items=2, labels=m, max_paths=200000, secs=120) for m in ((3, 5) if tier == "quick" else (3, 5, 8))]
    for k in (6, 8, 9, 10, 11, 12, 16, 20, 33) + ((64, 100) if tier == "thorough" else ()):
        t.append(dict(h="message", items=1, labels=k, wide=k))
        t.append(dict(h="message", items=k, labels=1, all=1, max_paths=6000, secs=60))
    if tier == "thorough":
        t.append(dict(h="message", items=4, labels=3))
    for g in (("seq", AB, EOF), alt(AB, S3), ("many", AB), ("seq", ("many", AB), EOF), UNEXP, P_,
              ("seq", ("maybe", S1), ("seq", ("maybe", S2), S3)), ("rw", AB, None), ("seq", ("rw", AB, 0), EOF),
              ("seq", ("recover", alt(S1, S2)), EOF), ("label", S1, ""), EOF, ("bind", ANY, "same"),
              ("seq", P_, S1), ("fmap", AB, "x"), ("pure", None), ("pure", 0), ("opq", AB), ("seq", ("opq", AB), EOF),
              ("seq", ("many", ("opq", AB)), EOF), ("opq", ("rw", alt(AB, S3), 0)), ("opq", ("pure", 0))):
        for r in (False, True):
            for fmt in (False, True):
                t.append(dict(h="result", g=g, n=2, recover=r, fmt=fmt, steps=3 if tier == "quick" else 4))
    for g, f in LONGR[:6]:
        t.append(dict(h="result", g=g, n=None, fix=f, recover=True, fmt=True, steps=1))
    for g, m in randoms("C08", 30 if tier == "quick" else 200, 3):
        t.append(dict(h="result", g=("seq", g, EOF), n=2, recover=True, fmt=True, steps=2))
    return t


TXT = [(("seq", ("many", alt(("lit", "ab"), ("lit", "\n"))), EOF), 5),
       (("seq", ("many", ("seq", ("re", "[^;]"), ("lit", ";"))), EOF), 4),
       (("seq", ("sepby", ("re", "[0-9]+"), ("lit", "\n")), EOF), 4),
       (("seq", ("lit", "a\nb"), ("seq", ("lit", "\n"), EOF)), 5),
       (("seq", ("many", ("lit", "\n")), ("sym", "x")), 5),
       (("seq", ANY, ("seq", ANY, ("lit", "x"))), 4),
       (("seq", ("attempt", ("seq", ANY, ("lit", "\n"))), ("lit", "q")), 4),
       (alt(("attempt", ("seq", ANY, ("seq", ANY, ("lit", "q")))), ("seq", ANY, ("lit", "r"))), 4),
       (("seq", ("re", "[\\s\\S]*?x"), ("lit", "y")), 4),
       (("seq", ("maybe", ("lit", "\n")), ("seq", ("many", ("re", "\\s")), ("lit", "z"))), 4),
       (("seq", ("re", "a?"), ("seq", ("re", "\\n?"), ("seq", ("re", "a?"), ("lit", "z")))), 4),
       (("seq", ("re", "\\n(?=\\n)"), ("seq", ANY, ("lit", "z"))), 4),
       (("seq", ("recover", ("lit", "a\n")), ("seq", ("lit", "b"), EOF)), 4),
       (("seq", ("rw", ("lit", "a"), "A"), ("seq", ("lit", "\n"), ("seq", ("rw", ("re", "b"), "B"), EOF))), 4),
       (("seq", ("rwf", ("re", "\\d"), "t"), ("seq", ("lit", "\n"), ("seq", ("lit", "x"), EOF))), 4),
       (("seq", ("many", ("seq", ("letter",), ("sym", "\n"))), EOF), 4),
       (("seq", ("lit", "\n\n"), ("seq", ("sym", "a"), ("seq", ("sym", "\n"), ("lit", "b\nc")))), 6)]


def c09(tier):
    t = []
    n = 6 if tier == "quick" else 7
    for k in range(1, n + 1):
        for probe in (0, 1):
            for r in (0, 1):
                if k < n or (probe + r) == 1 or tier == "thorough":
                    t.append(dict(h="linecol", n=k, probe=probe, recover=r, start=probe))
    for g, n in TXT:
        for r in (0, 1):
            m = n if r == 0 or tier == "thorough" else min(n, 4)
            t.append(dict(h="locstep", w="text", g=g, n=m, lo=0, recover=r))
        t.append(plain(g, n, ["loc", "locstr"], w="text", lo=0))
    # longer sources, newlines anywhere
    for k in (8, 10):
        t.append(plain(("seq", ("many", ("re", "[^x]")), ("seq", ("lit", "x"), ("lit", "y"))), k, ["loc", "locstr"],
                       w="text"))
        t.append(plain(("seq", ("re", "[\\s\\S]{%d}" % (k - 1)), ("lit", "y")), k, ["loc", "locstr"], w="text"))
        t.append(plain(("seq", ("re", "[\\s\\S]{3}"), ("seq", ("re", "[\\s\\S]{%d}" % (k - 4)), ("lit", "y"))), k,
                       ["loc", "locstr"], w="text"))
    # long stretches: far into a line, after one or many newlines, far down
    for k in (300, 1100, 5000):
        for mid in ("x\n" + "x" * k, "x" * k + "\nx", "x" * k, ("x" * 49 + "\n") * (k // 50)):
            f = [X] + list(mid) + [X]
            for r in (0, 1) if k < 5000 else (0,):
                t.append(dict(h="locstep", w="text", g=("seq", ("re", "[x\n]"), ("seq", ("lit", mid), ("lit", "!"))),
                              n=None, fix=f, recover=r))
    for g, m in randoms("C09", 120 if tier == "quick" else 1200, 3, text=True):
        for r in (0, 1):
            t.append(dict(h="locstep", w="text", g=("seq", g, EOF), n=4, recover=r))
    for g, m in randoms("C09d", 30 if tier == "quick" else 300, 4, text=True):
        t.append(dict(h="locstep", w="text", g=("seq", g, EOF), n=4, recover=1))
    return t


SPECS = [r"(?P<num>[0-9]+)|(?P<op>[+])|\s+", r"(?P<w>\w+)|(?P<nl>\n)|[ ]+", r"(?P<s>\"(?P<in>[^\"]*)\")|(?P<x>.)|\n",
         r"(?P<a>a)(?P<b>1)?|(\n)|(?P<c>[+ ])", r"(?P<line>[^\n]*\n)|(?P<rest>[^\n]+)", r"(?:(?P<k>a)|(?P<n>1)| )+",
         r"a(?=1)|(?P<d>1)|(?P<o>[^1])", r"(?P<x>a\n1)|(?P<y>[\s\S])",
         r"(?P<x>(?<=a)[1b])|(?P<y>\b[a+])|(?P<z>[\s\S])", r"(?m)(?P<h>^a)|(?P<e>1$)|(?P<z>[\s\S])",
         r"(?P<num>[0-9]*)|\s+", r"(?P<w>[a-z]+)|(?P<nl>\n?)", r"(?P<x>1*)(?=\+)|(?P<y>[a+])|[ ]*", r"\b(?P<e>)|(?P<z>[\s\S])"]


def c10(tier):
    n = 4 if tier == "quick" else 5
    t = [dict(h="lexer", n=k, max_paths=20000, secs=60 if tier == "quick" else 240) for k in range(0, n + 1)]
    for s in SPECS:
        t.append(dict(h="lexer", n=5 if tier == "thorough" else 4, lo=0, re=s, **({"secs": 40} if tier == "quick" else {})))
    # several sources and specifications
    for a, b in ((SPECS[0], SPECS[4]), (SPECS[1], SPECS[7]), (SPECS[3], SPECS[5])):
        for seq in ([[0, 0], [1, 0]], [[0, 0], [1, 1]], [[0, 0], [0, 1]]):
            t.append(dict(h="lexers", n=[2, 2], res=[a, b], seq=seq, lazy=1, max_paths=2500, secs=20))
        for seq in ([[0, 0], [1, 0], [0, 0]], [[0, 0], [1, 1], [0, 1], [1, 0]]):
            t.append(dict(h="lexers", n=[3, 2], res=[a, b], seq=seq, max_paths=1500, secs=20))
    # long stretches between the symbolic characters: a token far into a line, far down, after a long token
    for far in ([["x", 300]], [["x", 1100]], [["\n", 300]], [["x\n", 150]], [["x", 2500]]):
        t.append(dict(h="lexer", n=2, lo=2, far=far, max_paths=600, secs=25))
    t.append(dict(h="lexer", n=2, lo=2, far=[["x", 120], ["\n", 40]], max_paths=400, secs=25))
    return t


LEX = [("tok", "a"), ("tokins", "a", "A"), ("seq", ("tok", "a"), ("tok", "b")), ("seq", ("tokins", "a", "A"), ("tok", "b")),
       ("seq", ("tok", "a"), ("tokins", "b", "B")), alt(("tok", "a"), ("tok", "b")),
       alt(("seq", ("tok", "a"), ("tok", "b")), ("tokins", "c", "")), ("many", ("seq", ("tok", "a"), ("tokins", "b", "B"))),
       ("sepby", ("tok", "a"), ("tok", "b")), ("maybe", ("tok", "a")), ("label", ("tok", "a"), "lab"),
       ("attempt", ("seq", ("tok", "a"), ("tok", "b"))), ("many", ("tok", "a")), ("tok", "zz"), ("tokins", "zz", "Z"),
       ("seq", ("tokins", "a", "A"), ("tokins", "b", "B")), ANY]
RALL = ["accept", "avail", "norep", "exp", "cost", "far", "prio", "items", "locstr", "loc"]


def c11(tier):
    t = [dict(h="tokeneq"), dict(h="tokenhash")]
    for g in LEX:
        for c in (ctx_bare, lambda g: ("seq", g, EOF), lambda g: ("seq", ("tok", "c"), ("seq", g, EOF)),
                  lambda g: alt(g, ("tok", "b")), lambda g: ("seq", ("many", ("tok", "c")), ("seq", g, EOF))):
            t.append(plain(c(g), 3, FULL + ["locstr"], w="lexed"))
            t.append(rec(c(g), 3, RALL, w="lexed"))
    for s, k in ((SPECS[0], ["num", "op"]), (SPECS[1], ["w", "nl"]), (SPECS[7], ["y", "x"]), (SPECS[3], ["a", "c"])):
        t.append(dict(h="lexparse", n=4 if tier == "quick" else 5, lo=0, re=s, kinds=k))
    for g, m in randoms("C11", 60 if tier == "quick" else 500, 2, lexed=True):
        t.append(plain(("seq", g, EOF), 3, FULL + ["locstr"], w="lexed"))
        t.append(rec(("seq", g, EOF), 2 if tier == "quick" else 3, RALL, w="lexed"))
    t += [x for x in kin(FULL + ["locstr"], RALL, 10**6) if x["w"] == "lexed"]
    # a list of tokens that changes between parses
    A, B = ("tok", "a"), ("tok", "b")
    for g in (A, ("seq", A, B), ("seq", ("many", A), EOF), ("tokins", "a", "A"), ("seq", A, ("tokins", "b", "B")), ("block", ("seq", A, ("aligned", B))),
              alt(("seq", A, B), B)):
        t.append(dict(h="again", w="lexed", gs=[g], n=2, steps=2, kinds=["a", "b"], how=["append", "move", "pop", "twin"], max_paths=1500))
    return t


def c12(tier):
    t = []

    def items(A, B, C, ws, rest, w, n):
        out = []
        for g in (("block", A), ("aligned", A), ("indented", 0, A), ("indented", 1, A), ("indented", 2, A),
                  ("indented", "d", A)):
            for c in (lambda g: g, lambda g: ("seq", ws, g), lambda g: ("seq", ws, ("seq", g, rest)),
                      lambda g: alt(("seq", g, A), rest), lambda g: ("seq", ws, alt(g, rest)),
                      lambda g: ("seq", ws, ("block", ("seq", A, ("seq", ws, g)))),
                      lambda g: ("seq", ws, ("seq", ("block", ("seq", ws, A)), ("seq", ws, g))),
                      lambda g: ("seq", ws, ("block", ("seq", A, ("many", ("seq", ws, g))))),
                      lambda g: ("seq", ws, ("block", ("seq", ("seq", A, ("block", ("seq", ws, B))), ("seq", ws, g)))),
                      lambda g: ("seq", ws, ("block", ("seq", A, ("seq", ws, ("seq", ("indented", 1, B), ("seq", ws, g)))))),
                      lambda g: ("seq", ws, ("block", ("seq", A, ("seq", ws, ("indented", "d", ("seq", B, ("seq", ws, g))))))),
                      lambda g: ("seq", ("maybe", g), ("seq", ws, ("aligned", A))),
                      lambda g: ("seq", ws, ("block", ("seq", A, ("seq", ws, alt(("aligned", B), ("seq", g, C)))))),
                      lambda g: ("seq", ws, ("block", ("many", ("seq", ("aligned", A), ws)))),
                      lambda g: ("label", ("seq", ws, g), "lab")):
                out.append((c(g), n))
        return out
    ws = ("many", ("re", "[ \\n]"))
    txt = items(("lit", "a"), ("lit", "b"), ("re", "[a-c]"), ws, REST, "text", 5)
    for i, (g, n) in enumerate(txt):
        t.append(plain(g, n if tier == "quick" else n + 1, FULL + ["locstr"], w="text", alphabet="a \nb"))
        if tier == "thorough" or i % 2 == 0:
            t.append(rec(("seq", g, EOF), 4, ["accept", "avail", "norep", "exp", "cost", "far", "prio", "items", "locstr", "loc"],
                         w="text", alphabet="a \nb"))
    tk = items(("tok", "a"), ("tok", "b"), ("tok", "c"), ("many", ("tok", "c")), REST, "lexed", 4)
    for i, (g, n) in enumerate(tk):
        t.append(plain(g, 3 if i % 3 or tier == "quick" else n, FULL + ["locstr"], w="lexed"))
        if tier == "thorough" or i % 2 == 1:
            t.append(rec(("seq", g, EOF), 3, RALL, w="lexed"))
    # marks after repairs inside and before blocks
    for ins in (("recover", ("lit", "a")), ("rw", ("lit", "a"), "A"), ("rw", ("re", "[0-9]"), "0"), ("lit", "ab")):
        for body in (lambda x: ("seq", ("block", ("seq", x, ("lit", "b"))), ("seq", ws, ("aligned", ("lit", "c")))),
                     lambda x: ("seq", ws, ("block", ("seq", x, ("seq", ws, ("aligned", ("lit", "c")))))),
                     lambda x: ("seq", ws, ("block", ("seq", ("lit", "c"), ("seq", ws, ("seq", ("indented", 1, x),
                                                                              ("seq", ws, ("aligned", ("lit", "d")))))))),
                     lambda x: ("seq", x, ("seq", ws, ("seq", ("indented", "d", ("seq", x, ws)), ("aligned", x)))),
                     lambda x: ("seq", ("block", x), ("seq", ("block", x), ("seq", ws, ("aligned", x))))):
            t.append(rec(("seq", body(ins), EOF), 4, RALL, w="text", alphabet="ac \n"))
    for x in (("tokins", "a", "A"), ("tok", "a"), ("recover", ("tok", "a"))):
        for body in (lambda x: ("seq", ("block", ("seq", x, ("tok", "b"))), ("aligned", ("tokins", "c", "C"))),
                     lambda x: ("seq", ("tok", "c"), ("block", ("seq", x, ("aligned", ("tokins", "b", "B"))))),
                     lambda x: ("seq", ("block", x), ("seq", ("indented", "d", x), ("aligned", x))),
                     lambda x: ("many", ("seq", ("block", x), ("aligned", ("tok", "b"))))):
            t.append(rec(("seq", body(x), EOF), 3, RALL, w="lexed"))
            t.append(plain(("seq", body(x), EOF), 4, FULL + ["locstr"], w="lexed"))
    for i in range(80 if tier == "quick" else 800):
        for kw, w, n in ((dict(lexed=True), "lexed", 3), (dict(text=True), "text", 4)):
            gen = Gen("C12/%d/%s" % (i, w), layout=True, **kw)
            g = gen.lay(3)
            if w == "text":
                g = ("seq", ("re", "[ \\n]*"), g)
            t.append(plain(("seq", g, EOF), n, FULL + ["locstr"], w=w, alphabet="a \nb"))
            if i % 2 == 0 or tier == "thorough":
                t.append(rec(("seq", g, EOF), n - 1, RALL, w=w, alphabet="a \nb"))
    # one parser tried at one place under different marks
    W = [lambda g: g, lambda g: ("attempt", g), lambda g: ("label", g, "L"), lambda g: ("delay", g), lambda g: ("delay2", g), lambda g: ("delay3", g),
         lambda g: ("maybe", g), lambda g: ("many", g), lambda g: alt(g, ("unexp", "u")), lambda g: ("recover", g),
         lambda g: ("fmap", g, "m"), lambda g: ("attempt", ("seq", g, g)), lambda g: ("sepby", g, g),
         lambda g: ("rw", g, 0), lambda g: ("seq", ("pure", 0), g)]
    for k, wr in enumerate(W):
        for lay in (lambda g: ("aligned", g), lambda g: ("indented", 0, g), lambda g: ("indented", "d", g)):
            for w, A, pre, al in (("text", ("lit", "x"), ("re", "[ \\n]*"), "x \n"), ("lexed", ("tok", "a"), ("maybe", ("tok", "c")), None)):
                y = wr(lay(A))
                kw = dict(w=w, hc=1)
                if al:
                    kw["alphabet"] = al
                for g in (("seq", pre, alt(y, ("block", y))), ("seq", pre, alt(("block", y), y)),
                          ("seq", pre, ("seq", ("maybe", y), ("seq", ("block", ("maybe", y)), ("maybe", y)))),
                          ("seq", pre, ("seq", ("block", y), y)), ("seq", pre, ("block", ("seq", pre, ("seq", alt(("block", y), y), y))))):
                    t.append(plain(("seq", g, EOF), 3, FULL + ["locstr"], **kw))
                    if tier == "thorough" or k % 3 == 0:
                        t.append(rec(("seq", g, EOF), 2, RALL, **kw))
    # blocks that parse nothing
    for e in (("pure", 0), ("maybe", ("lit", "x")), ("many", ("lit", "x")), ("seq", ("pure", 0), ("maybe", ("lit", "x"))),
              ("block", ("pure", 0)), ("attempt", ("maybe", ("lit", "x"))), ("indented", 0, ("pure", 1)), ("re", "x?")):
        for b in (("block", e), ("indented", 0, e), ("indented", "d", e)):
            for nx in (("aligned", ("lit", "y")), ("indented", 0, ("lit", "y")), ("indented", "d", ("lit", "y"))):
                for g in (("seq", b, nx), ("seq", ("block", ("seq", ("lit", "y"), ("seq", ("re", "[ \\n]*"), b))), nx),
                          ("seq", ("maybe", b), nx), ("block", ("seq", ("re", " ?"), ("seq", b, nx)))):
                    t.append(plain(("seq", ("re", "[ \\n]*"), ("seq", g, EOF)), 3, FULL, w="text", alphabet="y \n"))
                    t.append(rec(("seq", ("re", "[ \\n]*"), ("seq", g, EOF)), 2, RALL, w="text", alphabet="y \n"))
    # YAML-like
    Y = ("rec", "y", ("block", ("many", ("aligned", ("seq", ("re", "[a-z]"), ("seq", ws, ("maybe", ("indented", 2, ("var", "y")))))))))
    for f in ("a\n\n  b\n", "a\n  b\n  c\n", "a\nb\n  c\n "):
        for i in range(len(f)):
            fx = list(f)
            fx[i] = None
            if i + 2 < len(f):
                fx[i + 2] = None
            t.append(plain(("seq", Y, EOF), None, FULL + ["locstr"], w="text", fix=fx, alphabet="a \n"))
    return t


def recset(prop, tier, every, n=3, elems=None, ctxs=None):
    """Grammars under recovery: every element in every context (a slice of them
    in the quick tier, another slice for another property)."""
    out = []
    off = int(prop[1:])
    for i, e in enumerate(elems or RE):
        for j, c in enumerate(ctxs or RC):
            if tier == "thorough" or (i * 3 + j + off) % every == 0:
                out.append((c(e), n))
    return out


def recpairs(prop, tier, every, elems=None):
    out = []
    off = int(prop[1:])
    k = 0
    for a in elems or RE:
        for b in elems or RE:
            k += 1
            if k % every == off % every:
                out.append(("seq", ("seq", a, b), EOF))
            if k % every == (off + 1) % every:
                out.append(("seq", alt(a, b), EOF))
    return out


def common(prop, tier, h, quick, thorough, asp=None, ins=5, attempt=True, filt=None):
    """The recovery families for one harness."""
    t = []
    kw = {} if asp is None else {"asp": asp}

    def ok(g):
        return (attempt or "attempt" not in repr(g)) and (filt is None or filt(g))

    def add(g, n, **k):
        if ok(g):
            t.append(dict(h=h, g=g, n=n, ins=k.pop("ins", ins), **kw, **k))
    for g, n in recset(prop, tier, quick["every"], 3):
        add(g, n)
    for g in recpairs(prop, tier, quick["pairs"] if tier == "quick" else thorough["pairs"]):
        add(g, 3)
    for g, f in LONGR:
        add(g, None, fix=f, ins=2 if ins == 5 else ins)
        add(("seq", g, EOF), None, fix=f, ins=2 if ins == 5 else ins)
    for d, cnt in ((2, "r2"), (3, "r3"), (4, "r4")):
        count = (quick if tier == "quick" else thorough)[cnt]
        for i, (g, m) in enumerate(randoms(prop, count, d, attempt=attempt)):
            add(("seq", g, EOF) if i % 3 else g, 3)
    for i, (g, m) in enumerate(randoms(prop + "t", (quick if tier == "quick" else thorough)["text"], 3, text=True,
                                       attempt=attempt)):
        add(("seq", g, EOF), 3, w="text", plainloc=1)
    for i, g in enumerate(dead()):
        if tier == "thorough" or i % 4 == hash_(prop) % 4:
            add(g, 2 if tier == "quick" else 3)
    for i, g in enumerate(through()):
        if tier == "thorough" or i % 2 == hash_(prop) % 2:
            add(g, 2 if tier == "quick" else 3)
    return t


def hash_(s):
    return sum(map(ord, s))


def through():
    """Wrappers that hand repairs on (layout is satisfied or not), after an insertion, before another, and inside of each other."""
    out = []
    W = [lambda g: ("block", g), lambda g: ("aligned", g), lambda g: ("indented", 0, g), lambda g: ("indented", 1, g),
         lambda g: ("block", ("aligned", g)), lambda g: ("indented", 0, ("block", g)), lambda g: ("block", ("indented", 0, g))]
    for i, w in enumerate(W):
        for j, x in enumerate((AB, ABC, ("recover", S2), ("rw", P_, 0), alt(AB, ("recover", S3)), ("attempt", AB), ("many", AB))):
            cs = [lambda g: ("seq", S1, ("seq", w(g), S3)), lambda g: alt(("seq", ("maybe", S3), w(g)), ("recover", S2)),
                  lambda g: ("seq", w(("seq", S1, g)), w(g)), lambda g: ("many", w(("seq", ("sym", 7), g))),
                  lambda g: w(alt(w(g), ("seq", S3, w(g))))]
            for k, c in enumerate(cs):
                if (i + 2 * j + k) % 3 == 0:
                    out.append(("seq", c(x), EOF))
    return out


def dead():
    """Parsers that can fail after consuming with nothing to repair that with, and ones with only a skip or only an insertion left."""
    out = []
    for x in (("seq", S1, ("none",)), ("seq", S1, ("unexp", "u")), ("seq", S1, P_), ("seq", ("maybe", S1), ("none",)),
              ("seq", ("sym", 1), ("rw", ("none",), 4)), ("seq", ("many", S1), ("unexp", "u"))):
        for w in (lambda g: ("rw", g, 0), lambda g: ("rwf", g, "t"), lambda g: ("recover", g), lambda g: alt(g, S2), lambda g: alt(("sym", 3), g),
                  lambda g: ("maybe", g), lambda g: ("many", ("seq", ANY, g)), lambda g: ("attempt", g), lambda g: ("label", g, "L"), lambda g: ("block", g),
                  lambda g: alt(("attempt", g), S1), lambda g: ("rw", ("rw", g, 5), 6), lambda g: alt(("rw", g, 5), ("rw", ANY, 6)),
                  lambda g: ("seq", ("maybe", g), g), lambda g: ("sepby", g, S2), lambda g: ("bind", g, "then", S2), lambda g: ("recover", ("rw", g, 5))):
            for c in (lambda g: ("seq", g, EOF), lambda g: ("seq", g, ("seq", P_, EOF)), lambda g: ("seq", S3, ("seq", g, ("maybe", S1)))):
                out.append(c(w(x)))
    return out


Q = dict(every=3, pairs=40, r2=60, r3=100, r4=15, text=40)
T = dict(pairs=3, r2=600, r3=1500, r4=300, text=500)


def c13(tier):
    t = common("C13", tier, "agree", Q, T, ins="sym") + primctx("agree", tier)
    for g, m in randoms("C13l", 40 if tier == "quick" else 300, 2, lexed=True, layout=True):
        t.append(dict(h="agree", g=("seq", g, EOF), n=3, w="lexed"))
    for g, n in TXT:
        t.append(dict(h="agree", g=g, n=n if tier == "thorough" else min(4, n), w="text", lo=0))
    for g in EXPS + LAB + ITEMS + COMP:
        t.append(dict(h="agree", g=ctx_rest(g), n=4, ins="sym"))
        t.append(dict(h="agree", g=ctx_alt(g), n=3, ins="sym"))
    for g in EMPTY:
        t.append(dict(h="agree", g=ctx_rest(("many", g)), n=3))
    for g, f in LONG:
        t.append(dict(h="agree", g=g, n=None, fix=f, ins=2))
    for g in [S1, P_, ANY] + EXPS + LAB + ITEMS + COMP:
        t.append(dict(h="agree", g=ctx_rest(g), n=3, w="objs"))
        t.append(dict(h="agree", g=ctx_alt(g), n=2, w="objs"))
    for i in range(30 if tier == "quick" else 300):
        gen = Gen("C13/lay/%d" % i, layout=True, text=True)
        t.append(dict(h="agree", g=("seq", ("re", "[ \\n]*"), ("seq", gen.lay(3), EOF)), n=3, w="text", alphabet="a \n"))
    t += owned(t, tier, 12)
    t += stretch("agree", None, (300, 1100)) + mistakes("agree", None)
    # a block that matched nothing, and what is aligned after it
    for nx in (("aligned", ("lit", "y")), ("indented", 1, ("lit", "y")), ("indented", 0, ("many", ("lit", "y")))):
        for b in (("maybe", ("lit", "b")), ("many", ("lit", "b")), ("pure", 0), ("attempt", ("maybe", ("seq", ("lit", "y"), ("lit", "b"))))):
            t.append(dict(h="agree", w="text", g=("block", ("seq", ("re", " *"), ("seq", ("block", b), ("seq", ("re", "\n *"), nx)))),
                          n=4, alphabet="y \n", max_paths=300))
    lays = [x for x in c12(tier) if x["h"] == "plain" and x.get("w") == "text" and x["n"] is not None and x["n"] <= 4]
    t += [{k: v for k, v in dict(x, h="agree", max_paths=300).items() if k != "asp"} for x in pick(lays, tier, 4)]
    return t


def noattempt(gs):
    return [g for g in gs if "attempt" not in repr(g)]


def c14(tier):
    t = common("C14", tier, "first", Q, T, ins="sym", attempt=False) + primctx("first", tier, attempt=False)
    for g in noattempt(EXPS + LAB + ITEMS + COMP):
        t.append(dict(h="first", g=("seq", g, ("sym", 9)), n=3, ins="sym<=3"))
        t.append(dict(h="first", g=("seq", ("rw", g, 4), EOF), n=2, ins="sym<=3"))
        t.append(dict(h="first", g=alt(g, ("recover", ("sym", 9))), n=3, ins="sym<=3"))
        t.append(dict(h="first", g=("seq", ("label", ("rw", ("rwf", g, "t"), 4), "lab"), EOF), n=2))
    for lab in ("L", ""):
        for x in (("unexp", "u"), ("label", P_, "P"), ("label", ("none",), "N"), S1):
            for r in (("rw", x, 0), ("rwf", x, "t"), ("rw", x, 0, "X"), ("rwf", x, "t", "X"), ("rw", ("rw", x, 0), 1),
                      ("rwf", ("rwf", x, "a"), "b"), ("rw", ("rwf", x, "a"), 1), ("rwf", ("rw", x, 1), "b"),
                      ("recover", ("rw", x, 0)), ("label", ("rw", x, 0), lab)):
                for c in (lambda g: ("seq", g, ("unexp", "no")), lambda g: ("seq", g, EOF), lambda g: g,
                          lambda g: alt(g, ("unexp", "no")), lambda g: alt(("unexp", "no"), g),
                          lambda g: ("seq", ("maybe", S3), ("seq", g, ("none",)))):
                    t.append(dict(h="first", g=c(r), n=2, ins="sym<=2"))
    for g, n in TXT:
        if "attempt" not in repr(g):
            t.append(dict(h="first", g=g, n=4 if tier == "thorough" else 3, w="text", lo=0))
    for g, m in randoms("C14l", 30 if tier == "quick" else 300, 2, lexed=True, layout=True, attempt=False):
        t.append(dict(h="first", g=("seq", g, EOF), n=2, w="lexed"))
    t += mistakes("first", None)
    t += [x for x in stretch("first", None, (300,)) if "attempt" not in repr(x["g"])]
    return t


def c15(tier):
    t = []
    E = RETAIN
    end = [lambda g: ("seq", g, EOF), lambda g: ("seq", ("sym", 7), ("seq", g, EOF)),
           lambda g: ("seq", alt(g, ("sym", 8)), EOF), lambda g: ("seq", ("maybe", g), ("seq", ("sym", 8), EOF)),
           lambda g: ("seq", alt(("sym", 8), g), EOF),
           lambda g: ("seq", ("many", g), EOF) if not nullable(g) else ("seq", ("seq", g, g), EOF)]
    for i, e in enumerate(E):
        for j, c in enumerate(end):
            if tier == "thorough" or (i + j) % 2 == 0:
                t.append(dict(h="script", g=c(e), n=4, labels=RLABELS, max_paths=400))
        t.append(dict(h="script", g=("seq", e, ("sym", 9)), n=3, labels=RLABELS, whole=False))
        t.append(dict(h="script", g=e, n=4, labels=RLABELS, whole=False))
    k = 0
    for a in E:
        for b in E:
            k += 1
            if tier == "thorough" or k % 12 == 0:
                t.append(dict(h="script", g=("seq", ("seq", a, b), EOF), n=4, labels=RLABELS, max_paths=400))
            if tier == "thorough" or k % 12 == 6:
                t.append(dict(h="script", g=("seq", alt(a, b), EOF), n=3, labels=RLABELS))
    for i, (d, cnt) in enumerate(((2, 60), (3, 120), (4, 20))):
        for j, (g, m) in enumerate(randoms("C15", cnt if tier == "quick" else cnt * 10, d, retain=True)):
            t.append(dict(h="script", g=("seq", g, EOF), n=3, labels=sorted(m.items()), max_paths=600))
    for g, f in ((("many", AB), [1, 2, 1, X, 1, 2, X, 2]), (("many", alt(AB, S3)), [1, 2, X, 1, X, 3]),
                 (("chainl", S1, ("sym", 7)), [1, 7, 1, X, 7, 1, X]), (("many", ABC), [1, 2, 3, 1, X, 3, X, 2, 3]),
                 (("rec", "x", alt(("then", S1, ("var", "x"), S2), S3)), [1, 1, 1, 3, 2, X, X]),
                 (("then", S1, S2, S3, ("sym", 4), ("sym", 5), ("sym", 6), ("sym", 7), ("sym", 8)), [1, 2, X, 4, 5, X, 7])):
        for ins in (5, 1, 0):
            t.append(dict(h="script", g=("seq", g, EOF), n=None, fix=f, labels=[], ins=ins))
    for k in (9, 17, 26):
        for g, f in wide(k)[1:2] + wide(k)[5:6] + wide(k)[10:13] + wide(k)[19:]:
            t.append(dict(h="script", g=g, n=None, fix=f, labels=[["s%d" % i, i] for i in range(10, 10 + k)], whole="eof" in repr(g)))
    # elements which equal a symbol without being it
    for i, e in enumerate(E):
        for j, c in enumerate(end):
            if tier == "thorough" or (i + j) % 3 == 0:
                t.append(dict(h="script", w="objs", g=c(e), n=3, labels=RLABELS, max_paths=300, ins=(5, 0)[i % 2]))
    for x in [x for x in far([], tier) if not x.get("w")]:
        t.append(dict(h="script", g=x["g"], n=None, fix=x["fix"], labels=RLABELS, max_paths=60, whole="eof" in repr(x["g"])))
    for g in through()[::2 if tier == "quick" else 1]:
        t.append(dict(h="script", g=g, n=3, labels=RLABELS, max_paths=400))
    # strings
    for g, n in ((("many", ("lit", "ab")), 4), (("many", alt(("lit", "ab"), ("re", "[0-9]+"))), 4),
                 (("seq", ("lit", "a"), ("seq", ("re", "\\s*"), ("lit", "bc"))), 4),
                 (("many", ("seq", ("re", "[a-c]+"), ("lit", ";"))), 4), (("seq", ("sym", "x"), ("lit", "yz")), 4),
                 (("seq", ("rw", ("re", "[0-9]"), "0", "D"), ("lit", "a")), 3), (("many", ("seq", ("letter",), ("digit",))), 3),
                 (("seq", ("lit", "aa"), ("lit", "aa")), 5), (("seq", ("lit", "aba"), ("lit", "ba")), 5)):
        t.append(dict(h="script", w="text", plainloc=1, g=("seq", g, EOF), n=n, lo=0, labels=[["D", "0"]]))
        t.append(dict(h="script", w="text", plainloc=1, g=g, n=n, labels=[["D", "0"]], whole=False))
    # lines
    for g, f in ((("seq", ("lit", "a"), ("seq", ("lit", "\n"), ("lit", "b"))), [X, X, "\n", X, X]),
                 (("seq", ("lit", "a"), ("seq", ("lit", "\n"), ("lit", "b"))), [X, X, X, X, X]),
                 (("many", ("seq", ("letter",), ("lit", "\n"))), [X, "a", "\n", X, "b", "\n", X]),
                 (("many", ("seq", ("lit", "a"), ("lit", "\n"))), ["x", "a", "\n", X, "a", "\n", X, "a", X])):
        t.append(dict(h="script", w="text", g=("seq", g, EOF), n=None, fix=f, labels=[], max_paths=150))
    t += [dict(x, labels=[], whole=True) for x in mistakes("script", None)]
    t += [dict(x, labels=[], whole="eof" in repr(x["g"])) for x in stretch("script", None, (120, 300), ("list",)) if "sepby" not in repr(x["g"])]
    return t


def c16(tier):
    t = common("C16", tier, "allowance", Q, T, ins="sym")
    for k in (1, 2, 3, 4):
        g = seq(*[("sym", i) for i in range(1, k + 1)])
        for gg in (g, ("seq", g, EOF), ("seq", ("many", ("seq", ("sym", 8), g)), EOF), ("seq", g, ("seq", ("sym", 8), g)),
                   ("seq", ("maybe", ("sym", 8)), g), ("seq", ("many", ("sym", 8)), g), ("bind", S1, "then", g),
                   ("seq", alt(g, ("sym", 8)), g), ("seq", PURE, ("seq", g, PURE)),
                   ("seq", ("rw", ("sym", 8), 0), g), ("seq", ("rwf", ("sym", 8), "t"), g), ("seq", ("attempt", g), g),
                   ("seq", ("rw", g, 0), ("rw", g, 0)), ("seq", ("label", g, "L"), ("recover", g)),
                   ("apply", g, S2, g), ("seq", ("delay", g), g), ("between", S1, S2, g)):
            t.append(dict(h="allowance", g=gg, n=2 if k > 2 else 3, ins="sym", max_paths=500))
    for f, g in (([1, 2, X, 3, 1], ("many", ABC)), ([1, 3, 2, X], ("seq", ABC, ABC)), ([9, X, 1], ("many", ("seq", ("sym", 9), ABC))),
                 ([1, 8, X, 8, 1], ("sepby", ABC, ("sym", 8)))):
        t.append(dict(h="allowance", g=("seq", g, EOF), n=None, fix=f, ins="sym"))
    # long rows of insertions
    for k in (8, 12, 20, 40, 70) + ((130, 260) if tier == "thorough" else ()):
        row = seq(*[("sym", i) for i in range(1, k + 1)])
        big = ("sym", 1000)
        for g, f in ((row, []), (("seq", row, EOF), [X]), (("seq", big, ("seq", row, big)), [1000, X]), (("seq", ("recover", row), ("seq", big, row)), [1000]),
                     (("seq", alt(row, big), EOF), [X]), (seq(*[("rw", P_, i) for i in range(k)]), []), (("bind", big, "then", row), [X]),
                     (("seq", ("many", ("seq", big, row)), EOF), [1000, X, 1000])):
            t.append(dict(h="allowance", g=g, n=None, fix=f, ins="sym", max_paths=400))
    for g, m in randoms("C16t", 20, 2, text=True):
        t.append(dict(h="allowance", g=("seq", g, EOF), n=3, w="text", plainloc=1, ins="sym"))
    t += stretch("allowance", None, (120,)) + mistakes("allowance", None)
    for g in list(collide())[1:: 3 if tier == "quick" else 1]:
        t.append(dict(h="allowance", g=g, n=3, ins="sym", max_paths=400))
    return t


def c17(tier):
    asp = ["accept", "avail", "norep", "cost", "far"]
    t = common("C17", tier, "rec", Q, T, asp=asp) + primctx("rec", tier, asp)
    t += [x for x in opaques([], asp) if x["h"] == "rec"][::2]
    t += far(asp, tier) + overlaps(asp, 5 if tier == "quick" else 6)
    t += bigs([("seq", p, EOF) for p in (S1, AB, alt(AB, S3), ("many", AB), ("not", 3), ("rw", S1, 0))], 3, PLAIN, asp)
    for e in (AB, ABC, alt(AB, S3), ("many", AB), ("sepby", AB, S3), ("recover", S2), ("seq", S1, P_)):
        t.append(rec(("seq", e, EOF), 5 if tier == "thorough" else 4, asp, max_paths=1500))
        t.append(rec(("seq", e, EOF), 3, asp, ins="sym"))
    t += [x for x in kin([], asp, 2) if x["h"] == "rec"] + stretch("rec", asp, (120, 300)) + mistakes("rec", asp)
    for g in list(collide())[:: 2 if tier == "quick" else 1]:
        t.append(rec(g, 3, asp, ins="sym", max_paths=600))
    return t


CH = [S1, AB, ("recover", S1), ("recover", AB), ("rw", S1, 0), ("rw", AB, "v", "V"), ("rwf", S2, "t"), P_,
      ("seq", ("recover", S1), S2), ("seq", S1, ("recover", S2)), ("seq", PURE, ("recover", S3)), ("attempt", AB),
      ("recover", alt(S1, S2)), ("label", ("recover", S2), "r"), ("seq", ("maybe", S3), ("recover", S2)),
      ("maybe", ("recover", AB)), ("many", ("recover", AB)), ("recover", ("rw", S1, 4)), ("bind", ("recover", S1), "then", S2),
      ("rw", ("recover", S1), 4), ("fmap", ("recover", S2), "m"), ("delay", ("recover", S2)), UNEXP,
      ("then", ("recover", S1), S2, S3), ("rw", ("unexp", "u"), 0, "U"), ("rw", AB, "v", ""), ("rwf", S1, "t", ""),
      ("sym", 2, ""), ("rw", S2, "", "s")]


def c18(tier):
    asp = ["accept", "avail", "norep", "cost", "far", "prio"]
    t = [rec(g, 2, asp) for g in dead()]
    k = 0
    for a in CH:
        for b in CH:
            k += 1
            if tier == "thorough" or k % 3 == 0:
                t.append(rec(("seq", alt(a, b), EOF), 2, asp))
            if tier == "thorough" or k % 5 == 0:
                t.append(rec(("seq", alt(a, b), EOF), 3, asp, ins="sym"))
            if tier == "thorough" or k % 9 == 0:
                t.append(rec(("seq", alt(("sym", 8), a, b), ("seq", ("sym", 9), EOF)), 2, asp))
                t.append(rec(("seq", alt(("seq", ("sym", 8), ("sym", 8)), alt(a, b)), EOF), 2, asp))
    for a in CH:
        for c in (lambda g: ("seq", ("maybe", g), EOF), lambda g: ("seq", ("maybe", g), ("sym", 9)),
                  lambda g: ("seq", ("many", g), ("seq", ("sym", 9), EOF)) if not nullable(g) else ("seq", g, ("sym", 9)),
                  lambda g: ("seq", ("sepby", g, ("sym", 9)), EOF), lambda g: ("seq", ("attempt", g), EOF),
                  lambda g: ("seq", ("maybe", ("attempt", g)), ("seq", ("sym", 9), EOF)),
                  lambda g: ("seq", alt(("attempt", g), ("sym", 9)), EOF), lambda g: ("seq", alt(("sym", 9), ("attempt", g)), EOF),
                  lambda g: ("seq", ("recover", ("maybe", g)), ("sym", 9)),
                  lambda g: ("seq", ("rw", ("maybe", g), 3), ("sym", 9)),
                  lambda g: ("seq", alt(("maybe", g), ("recover", ("sym", 9))), EOF),
                  lambda g: ("seq", ("sepby", S3, g), EOF)):
            t.append(rec(c(a), 3, asp, max_paths=300))
    t += common("C18", tier, "rec", dict(every=4, pairs=80, r2=40, r3=80, r4=10, text=20), T, asp=asp)
    t += [x for x in kin([], asp, 2) if x["h"] == "rec"] + stretch("rec", asp, (120,))
    for g in list(collide())[1:: 4 if tier == "quick" else 1]:
        t.append(rec(g, 3, asp, max_paths=400))
    return t


def c19(tier):
    x = lambda g, name="x": ("share", name, g)
    t = []
    combos = [[("seq", x(AB), EOF), alt(x(AB), S3)],
              [("label", x(AB), "L"), ("seq", x(AB), x(AB))],
              [("many", x(AB)), ("seq", ("maybe", x(AB)), ("seq", S3, EOF))],
              [("recover", x(S1)), ("seq", alt(S2, x(S1)), EOF)],
              [("rw", x(S1), 5), ("seq", x(S1), S2)],
              [("label", x(alt(S1, S2)), "L"), ("seq", x(alt(S1, S2)), EOF)],
              [x(("seq", ("maybe", S1), S2)), ("label", x(("seq", ("maybe", S1), S2)), "M")],
              [("seq", ("many", x(S1)), x(S2, "y")), ("seq", x(S2, "y"), ("many", x(S1)))],
              [x(("rw", AB, 3)), alt(("sym", 8), ("recover", x(("rw", AB, 3))))],
              [x(EOF), ("seq", ("maybe", S1), x(EOF))],
              [x(UNEXP), alt(S1, x(UNEXP))],
              [x(("sepby", S1, S2)), ("seq", x(("sepby", S1, S2)), EOF)],
              [x(("sym", 1, "one")), ("label", ("seq", ("maybe", S2), x(("sym", 1, "one"))), "z")],
              [x(("bind", ANY, "same")), ("many", x(("bind", ANY, "same")))],
              [x(("delay", AB)), ("recover", x(("delay", AB)))],
              [("seq", x(("recover", alt(S1, S2))), EOF), alt(S3, x(("recover", alt(S1, S2))))]]
    for c in combos:
        t.append(dict(h="history", gs=c, n=2, steps=2, streams=2, max_paths=5000))
        t.append(dict(h="history", gs=c, n=2, steps=3, streams=1, max_paths=5000))
        t.append(dict(h="history", gs=c, fix=[[X, 2], [1, X]], n=2, steps=3, streams=2, modes=["rec"],
                      max_paths=5000))
    for i in range(60 if tier == "quick" else 500):
        g = Gen("C19/%d" % i)
        s = g.g(2)
        gs = [("seq", ("share", "x", s), EOF), alt(("sym", 3), ("share", "x", s))]
        t.append(dict(h="history", gs=gs, fix=[[X, 2, 1], [1, X]], n=2, steps=2, streams=2, max_paths=3000))
    # a stream that stays, is replaced by an equal one, or is changed in place
    y = x(("seq", ("maybe", S1), S2))
    LIVE = [[("seq", x(AB), EOF), alt(x(AB), S3)], [("seq", y, y), ("many", y)], [("seq", x(("recover", alt(S1, S2))), EOF)],
            [("seq", x(("rw", P_, 7)), ("seq", x(("rw", P_, 7)), EOF))], [x(("bind", ANY, "same"))], [("many", x(alt(AB, S3)))],
            [("seq", ("label", x(alt(S1, S2)), "L"), x(alt(S1, S2)))], [("attempt", ("seq", x(AB), S3)), ("seq", x(AB), EOF)],
            [x(("chainl", S1, S2)), ("sepby", x(("chainl", S1, S2)), S3)]]
    for c in LIVE:
        for f in ([1, X], [X, 2], [X, X]) if tier == "thorough" else ([1, X], [X, 2]):
            t.append(dict(h="again", gs=c, fix=f, steps=2, how=["same", "twin", "change", "pop"], max_paths=2500))
            t.append(dict(h="again", gs=c, fix=f, steps=2, how=["change"], hc=1, max_paths=2500))
            t.append(dict(h="reenter", gs=c, fix=f, max_paths=2500))
        t.append(dict(h="again", gs=c[:1], fix=[1, X], steps=3, how=["change", "pop"], max_paths=1000))
        t.append(dict(h="again", gs=c, fix=[1, X], steps=3, how=["same", "change"], spoil=1, max_paths=1000))
        t.append(dict(h="reenter", gs=c[:1], fix=[1, X], nest=2, max_paths=1000))
    # a search for the place to skip to, and all else, sees the stream as it is
    for g in (P_, S1, AB, ("seq", P_, EOF), ("seq", S1, EOF), alt(S1, P_), alt(AB, S3), ("seq", ("many", P_), EOF), ("many", AB), ("seq", P_, Q_), ("not", 1), EOF,
              ("seq", ("many", S1), EOF), ("sepby", S1, S2), ("seq", ("rw", P_, 0), EOF), ("seq", ("recover", S1), S2), ("attempt", AB), ("seq", ("maybe", AB), EOF),
              ("chainl", S1, S2), ("bind", ANY, "same"), ("label", P_, "L"), ("seq", ANY, ("label", P_, "L"))):
        for how in (["change"], ["pop", "append", "twin"]):
            t.append(dict(h="again", gs=[g], fix=[X, X, X], steps=2, how=how, max_paths=1500))
            if tier == "thorough":
                t.append(dict(h="again", gs=[g], fix=[X, X, X, X], steps=3, how=how, max_paths=1500))
    # the lists a parse hands out belong to whoever got them
    for c in ([("many", x(S1))], [("seq", ("many", x(S1)), EOF), ("many", x(S1))], [("sepby", S1, S2), ("seq", ("sepby", S1, S2), EOF)],
              [("maybe", ("many", S1)), ("seq", ("many", AB), EOF)], [("many", ("seq", S1, ("many", S2)))], [("label", ("many", S1), "L"), S3],
              [UNEXP], [EOF], [("label", S1, "one"), alt(("label", S1, "one"), S2)], [alt(S1, alt(S2, ("sym", 3, "c")))], [S1, ("seq", ("many", S1), S2)],
              [("seq", ("rw", AB, 0), EOF), ("recover", AB)], [("aligned", S1), ("indented", 1, S1)], [ANY, P_]):
        for f in ([X], [X, X]):
            t.append(dict(h="again", gs=c, fix=f, steps=3, how=["same", "change"], spoil=1, max_paths=1500))
            t.append(dict(h="again", gs=c, fix=f, steps=2, how=["append"], max_paths=1500))
    for p in (("lit", "ab"), ("re", "a(b)?", 1), ("many", ("lit", "a")), ("seq", ("many", ("re", "a")), EOF), ("letter",), ("digit",)):
        t.append(dict(h="again", w="text", gs=[p], n=2, lo=1, alphabet="ab", steps=2, how=["same"], spoil=1, max_paths=1000))
    A, B = ("tok", "a"), ("tok", "b")
    for c in (A, ("tokins", "a", "A"), ("many", A), ("seq", ("many", ("tokins", "a", "A")), EOF)):
        t.append(dict(h="again", w="lexed", gs=[c], n=2, lo=1, steps=2, kinds=["a", "b"], how=["twin", "same"], spoil=1, max_paths=1000))
    for c in ([("seq", x(("seq", A, B)), EOF)], [alt(x(("seq", A, B)), ("tokins", "b", "B"))], [("seq", x(("tokins", "a", "A")), x(("tokins", "a", "A")))],
              [("seq", A, ("aligned", B))], [("block", ("seq", x(A), ("indented", 1, x(A))))], [("many", ("seq", x(A), ("recover", B)))]):
        t.append(dict(h="again", w="lexed", gs=c, n=2, steps=2, kinds=["a", "b"], how=["twin"], max_paths=2500))
        t.append(dict(h="again", w="lexed", gs=c, n=2, lo=1, steps=2, kinds=["a", "b"], how=["change", "pop"], max_paths=2500))
        t.append(dict(h="reenter", w="lexed", gs=c, n=1, lo=1, kinds=["a", "b"], max_paths=2500))
    for g in (S1, AB, ("many", S1), alt(S1, S2), ("recover", AB), ("rw", AB, 0), ("maybe", AB), ("bind", S1, "then", S2)):
        t.append(dict(h="reenter", gs=[("seq", ("call", x(g)), ("seq", x(g), EOF)), ("many", ("call", S1))], n=2, max_paths=2500))
        t.append(dict(h="reenter", gs=[("label", ("call", x(g)), "L"), alt(("call", x(g)), S3)], n=2, max_paths=2500, hc=1))
    for g in (("lit", "a"), ("re", "a\n?"), ("seq", ("lit", "a"), ("lit", "\n")), ("recover", ("lit", "ab"))):
        t.append(dict(h="reenter", w="text", gs=[("seq", ("call", x(g)), ("seq", x(g), EOF))], n=2, lo=0, alphabet="ab\n", max_paths=2500))
        t.append(dict(h="reenter", w="text", gs=[("block", ("seq", ("call", x(g)), ("maybe", ("aligned", ("call", x(g))))))], n=2, lo=0,
                      alphabet="ab\n", max_paths=2500))
    # two parses in two threads, switching anywhere
    big = tier == "thorough"
    for c in LIVE:
        for who in ([0, 0], [0, len(c) - 1])[:len(c)]:
            for m in (0, 3) if not big else range(4):
                t.append(dict(h="threads", gs=c, fix=[1, X], who=who, modes=m, at="line", switches=1, max_paths=2500))
                t.append(dict(h="threads", gs=c, fix=[1, X] if big else [X], who=who, modes=m, at="call", switches=2, one=1, early=m & 1,
                              max_paths=1000))
        t.append(dict(h="threads", gs=c, fix=[1, X], hc=1, switches=3, max_paths=1500))
        for m in (0, 3):
            t.append(dict(h="threads", gs=c[:1], fix=[X, X] if big else [X], who=[0, 0], modes=m, at="line", switches=2, one=1, early=m & 1, looks=1, max_paths=1500))
    for g in (S1, ("many", S1), ("recover", AB), ("rw", AB, 0), ("bind", S1, "then", S2), ("delay", AB), ("sepby", S1, S2), ("maybe", AB)):
        for m in (0, 1, 2, 3) if big else (0, 3):
            t.append(dict(h="threads", gs=[("seq", ("call", x(g)), ("seq", x(g), EOF))], n=1, who=[0, 0], modes=m, at="call", switches=2,
                          one=1, early=m & 1, max_paths=800))
            t.append(dict(h="threads", w="own", gs=[("seq", ("call", x(g)), EOF)], n=1, who=[0, 0], modes=m, switches=3, max_paths=1500))
    for g in (("lit", "a"), ("seq", ("lit", "a"), ("lit", "\n")), ("recover", ("lit", "ab")), ("letter",)):
        for m in (0, 3):
            t.append(dict(h="threads", w="text", gs=[("block", ("seq", x(g), ("maybe", ("aligned", ("call", x(g))))))], n=1, lo=1, who=[0, 0],
                          modes=m, one=1, early=m & 1, alphabet="ab\n", at="call", switches=2, max_paths=800))
    for c in ([("seq", x(("seq", A, B)), EOF)], [("block", ("seq", x(A), ("indented", 1, x(A))))], [("many", ("seq", x(A), ("recover", B)))],
              [("seq", x(("tokins", "a", "A")), x(("tokins", "a", "A")))]):
        for m in (0, 3):
            t.append(dict(h="threads", w="lexed", gs=c, n=1, lo=1, kinds=["a", "b"], who=[0, 0], modes=m, at="call", switches=2, one=1, early=m & 1,
                          max_paths=800))
    for g, f in LONGR[:5]:
        t.append(dict(h="history", gs=[("share", "x", g)], fix=[f], n=2, steps=2, streams=1, modes=["rec"]))
    # parsers from which further parsers were built, which nobody runs
    for k, g in enumerate(EXPS + LAB + ITEMS + COMP + EMPTY + ALTS + FM + [("chainl", S1, S2), ("chainr", S1, S2), ("purefn", 3), ("block", AB), UNEXP,
                                                                        ("delay", AB), ("then", S1, S2, S3), ("rwf", AB, "t"), alt(S1, alt(S2, S3))]):
        for c in (lambda g: g, lambda g: ("seq", ("maybe", S3), ("seq", g, EOF)), lambda g: alt(("seq", g, S3), ("seq", g, EOF))):
            t.append(plain(c(g), 3, ["loc", "exp", "one"], grow=1))
            t.append(rec(c(g), 2, RALL, grow=1, max_paths=300))
        # ... before it became a part of another one
        for d in (alt(g, S3), ("seq", g, S3), ("fmap", g, "t"), ("label", g, "L"), ("recover", g), ("maybe", ("seqr", S3, g))):
            t.append(plain(("seq", d, EOF), 3, ["loc", "exp", "one"], grow=1))
        t.append(rec(("seq", alt(g, S3), EOF), 2, RALL, grow=1, max_paths=200))
    for p in TP[::4]:
        t.append(plain(("seq", p, EOF), 3, ["loc", "exp", "one"], w="text", lo=0, grow=1))
        t.append(rec(("seq", p, EOF), 2, RALL, w="text", lo=0, grow=1, max_paths=300))
    for g in LEX:
        t.append(rec(("seq", g, EOF), 2, RALL, w="lexed", grow=1, max_paths=300))
    return t


def c20(tier):
    asp = ["total"]
    t = common("C20", tier, "rec", Q, T, asp=asp, ins="sym") + primctx("rec", tier, asp)
    for g in EXPS + LAB + ITEMS + COMP + EMPTY:
        t.append(plain(g, 3, ["one"]))
        t.append(rec(("seq", g, EOF), 2, asp, ins="sym"))
        t.append(plain(("many", g), 3, []))
        t.append(rec(("many", g), 2, asp, ins="sym"))
    for p in (("lit", "a"), ("lit", "abc"), ("re", "a*"), ("re", "(a)|b", 1), ("re", "a"), ("letter",), ("digit",), ("sym", "a"), EOF, ANY,
              ("none",), ("re", "$"), ("re", "")):
        for c in (lambda g: g, lambda g: ("seq", ANY, ("seq", g, EOF)), lambda g: ("seq", g, g), lambda g: ("many", g),
                  lambda g: alt(g, EOF), lambda g: ("rw", ("seq", g, EOF), 0), lambda g: ("block", ("aligned", g))):
            t.append(plain(c(p), 3, [], w="text", lo=0))
            t.append(rec(c(p), 3, asp, w="text", lo=0))
    for g in LEX:
        for c in (lambda g: g, lambda g: ("block", ("seq", g, ("aligned", g))), lambda g: ("indented", "d", ("seq", g, EOF)),
                  lambda g: ("many", ("seq", ("tok", "c"), g))):
            t.append(plain(c(g), 2, [], w="lexed"))
            t.append(rec(c(g), 2, asp, w="lexed"))
    t += opaques(["one"], asp) + far(asp, tier)
    # long inputs: the depth of the recursion does not follow their length
    for k in (130, 1100):
        for g, f, r in [(("seq", ("many", AB), EOF), [1, 2] * k + [X], 0), (("seq", ("many", AB), EOF), [1, 2] * k + [X], 1),
                        (("seq", ("sepby", S1, S2), EOF), [1, 2] * k + [X], 0), (("seq", ("sepby", S1, S2), EOF), [1, 2] * k + [X], 1),
                        (("seq", ("chainl", S1, S2), EOF), [1, 2] * k + [X], 0), (("seq", ("chainr", S1, S2), EOF), [1, 2] * k + [X], 1),
                        (("seq", ("many", alt(AB, S3)), EOF), [3] * k + [X], 1)]:
            t.append(dict(h="depth", g=g, fix=f, recover=r, msg="nothing but a ParseError may escape on a long input"))
    for k in (300, 1100):
        for p in (S1, ("not", 9), ("rw", S1, 0), ("label", S1, "L"), alt(S1, S2), ("attempt", AB), AB, ("many", S1), ("sepby", S1, S2)):
            t.append(dict(h="depth", g=("seq", S3, ("seq", p, EOF)), fix=[3] + [9] * k + [1, 2], recover=1, msg="nothing but a ParseError may escape on a long skip"))
        for p in (("lit", "b"), ("lit", "ab"), ("re", "b"), ("re", "(b)|a", 1), ("re", "b?$"), ("digit",), ("sym", "b"), ("letter",)):
            t.append(dict(h="depth", g=("seq", p, EOF), w="text", fix=list("--\n" * (k // 3)) + ["a", X, "b"], recover=1,
                          msg="nothing but a ParseError may escape on a long skip"))
        for p in (("tok", "b"), ("tokins", "b", "B")):
            t.append(dict(h="depth", g=("seq", p, EOF), w="lexed", fix=["a"] * k + ["b"], recover=1, msg="nothing but a ParseError may escape on a long skip"))
    t.append(dict(h="depth", g=("seq", ("many", AB), EOF), fix=[1] * 100 + [X], recover=1,
                  msg="nothing but a ParseError may escape on an input with 100 errors"))
    t.append(dict(h="depth", g=("seq", ("many", AB), EOF), fix=[1] * 400 + [X], recover=1,
                  msg="nothing but a ParseError may escape on an input with 400 errors"))
    return t


def c21(tier):
    asp = ["accept", "avail", "norep", "exp", "loc", "items"]
    t = common("C21", tier, "rec", Q, T, asp=asp) + primctx("rec", tier, asp)
    for e in noattempt(LAB + EXPS):
        t.append(rec(("seq", ("seq", S1, e), ("seq", S2, EOF)), 3, asp, max_paths=400))
        t.append(rec(("seq", ("maybe", S3), ("seq", ("recover", e), ("seq", ("maybe", S2), EOF))), 3, asp, max_paths=400))
        t.append(rec(("seq", ("many", e) if not nullable(e) else e, ("seq", ("rw", e, 4), EOF)), 3, asp, max_paths=400))
    for x in (("unexp", "u"), ("label", P_, "P"), S1):
        for r in (("rw", x, 0), ("rwf", x, "t"), ("rw", ("rw", x, 0), 1), ("rwf", ("rwf", x, "a"), "b"), ("rw", ("rwf", x, "a"), 1),
                  ("rw", x, 0, ""), ("rwf", x, "t", ""), ("rw", x, "", "s"), ("rw", x, None, "n"), ("sym", 1, "")):
            for c in (lambda g: ("seq", g, ("unexp", "no")), lambda g: ("seq", ("maybe", S3), ("seq", g, EOF)),
                      lambda g: ("seq", S2, ("seq", g, ("seq", g, EOF))), lambda g: alt(g, ("unexp", "no"))):
                t.append(rec(c(r), 2, asp))
    t += [x for x in kin([], asp) if x["h"] == "rec"] + stretch("rec", asp, (120, 300))
    for g in list(collide())[3:: 4 if tier == "quick" else 1]:
        t.append(rec(g, 3, asp, max_paths=400))
    return t


def c22(tier):
    t = []

    def lay(A, B, C, ws, rest):
        for g in (("block", A), ("aligned", A), ("indented", 0, A), ("indented", 2, A), ("indented", "d", A)):
            for c in (lambda g: g, lambda g: ("seq", ws, ("seq", g, rest)), lambda g: ("seq", ws, alt(("seq", g, A), rest)),
                      lambda g: ("seq", ws, ("block", ("seq", A, ("seq", ws, g)))),
                      lambda g: ("seq", ws, ("seq", ("block", ("seq", ws, A)), ("seq", ws, g))),
                      lambda g: ("seq", ws, ("block", ("seq", A, ("many", ("seq", B, g))))),
                      lambda g: ("seq", ws, ("block", ("seq", A, ("seq", ("indented", 1, B), ("seq", ws, g))))),
                      lambda g: ("seq", ("attempt", ("seq", A, ("seq", B, g))), C),
                      lambda g: alt(("attempt", ("seq", A, ("seq", B, g))), ("seq", A, ("aligned", C)))):
                yield c(g)
    for i, g in enumerate(lay(S1, S2, S3, ("many", ("sym", 0)), REST)):
        t.append(plain(g, 3, FULL + ["locstr"], w="own"))
        t.append(rec(("seq", g, EOF), 3, RALL, w="own"))
    for i, g in enumerate(lay(("lit", "a"), ("lit", "bc"), ("re", "[a-c]+"), ("re", " *"), REST)):
        t.append(plain(g, 4, FULL + ["locstr"], w="owntext", alphabet="abc "))
        t.append(rec(("seq", g, EOF), 3, RALL, w="owntext", alphabet="abc "))
    for g, n in recset("C22", tier, 2):
        t.append(plain(g, 3, FULL + ["locstr"], w="own"))
        t.append(rec(g, 3, RALL, w="own"))
    for p in TP:
        for c in (lambda g: ("seq", g, EOF), lambda g: ("seq", ("sym", "b"), ("seq", ("recover", g), EOF)),
                  lambda g: alt(("seq", g, ("lit", "!")), REST), lambda g: ("seq", ("maybe", ("attempt", ("seq", g, ("lit", "!")))), ("aligned", g))):
            t.append(plain(c(p), 3, FULL + ["locstr"], w="owntext", lo=0))
            t.append(rec(c(p), 3, RALL, w="owntext", lo=0))
    for g, f in LONGR:
        t.append(plain(g, None, FULL + ["locstr"], w="own", fix=f))
        t.append(rec(("seq", g, EOF), None, RALL, w="own", fix=f, ins=2))
    for w, kw in (("own", {}), ("owntext", dict(text=True))):
        for i in range(60 if tier == "quick" else 600):
            gen = Gen("C22/%d/%s" % (i, w), layout=True, **kw)
            g = ("seq", gen.lay(3) if i % 2 else gen.g(3), EOF)
            t.append(plain(g, 3, FULL + ["locstr"], w=w))
            t.append(rec(g, 3, RALL, w=w))
    t += [dict(x, odd=1) for x in t[::6] + t[1::6]]
    return t


def c23(tier):
    t = []
    F_ = ("purefn", 0)
    us = [P_, ("not", 1), ("fmap", AB, "x"), ("bind", ANY, "same"), ("bindf", S1, "then", P_), ("seq", S1, F_), alt(("seq", S1, F_), ("seq", F_, S2)),
          ("rwf", AB, "t"), ("rwf", P_, "t", "T"), ("chainl", ("fmap", S1, "x"), S2), ("chainr", ANY, ("fmap", S2, "o")), ("as", alt(S1, P_), 0),
          ("fmap", ("rwf", S1, "t"), "f"), ("bind", ("recover", S1), "if", 1, P_, ("rwf", S3, "z")), ("fmap", ("bind", P_, "type"), "g")]
    cs = [lambda g: g, lambda g: ("seq", g, EOF), lambda g: ("seq", ("maybe", g), ("seq", g, EOF)), lambda g: alt(("seq", g, S3), ("seq", ANY, EOF)),
          lambda g: ("many", ("seq", S1, g)), lambda g: ("seq", ("many", g), EOF), lambda g: alt(("attempt", ("seq", g, S3)), g), lambda g: ("label", ("recover", g), "L"),
          lambda g: ("sepby", g, S3), lambda g: ("between", S3, S3, g), lambda g: ("seq", ("delay", g), g), lambda g: ("seq", ("rw", g, 0), EOF),
          lambda g: ("then", g, S1, g), lambda g: ("apply", S1, g, S2), lambda g: ("chainl", g, S3), lambda g: ("seq", ("attempt", g), ("seq", S3, EOF))]
    k = 0
    for i, u in enumerate(us):
        for j, c in enumerate(cs):
            k += 1
            if tier == "thorough" or (i + j) % 3 == 0:
                t.append(dict(h="raises", g=c(u), n=3 if tier == "thorough" else 2, exc=k, calls=6 if tier == "quick" else 12, max_paths=1500))
            if (i + j) % 3 == 1:
                t.append(dict(h="raises", g=c(u), n=2, exc=k, w="objs", max_paths=1500))
            if (i + j) % 3 == 2:
                t.append(dict(h="raises", g=("block", ("seq", c(u), ("aligned", ("maybe", S1)))), n=2, exc=k, w="own", max_paths=1500))
    for g, f in LONGR[:4]:
        t.append(dict(h="raises", g=("fmap", g, "x"), n=None, fix=f, exc=len(f), calls=20, max_paths=1500))
    for i in range(60 if tier == "quick" else 600):
        gen = Gen("C23/%d" % i, layout=True)
        t.append(dict(h="raises", g=("seq", gen.g(3), EOF), n=2, exc=i, w="own" if i % 2 else "tokens", calls=10, max_paths=1500))
    for i, x in enumerate(t):
        x["end"] = i
    return t


R5 = ["accept", "avail", "norep", "cost", "far"]
def c24(tier):
    t = []
    big = tier == "thorough"
    mp = 600

    def add(g, n, w="objs", **k):
        t.append(dict(h="steps", g=g, n=n, w=w, max_paths=k.pop("max_paths", mp), **k))
    els = EXPS + LAB + ITEMS + COMP + EMPTY + ALTS + FM + [("fmap", S1, "x"), ("fmap", AB, "y"), ("fmap", alt(P_, S2), "z"), ("purefn", 3),
                                                            ("bind", P_, "then", ("fmap", S2, "q")), ("bind", ANY, "same"), ("bindf", S1, "then", Q_)]
    for i, g in enumerate(els):
        for c in CTX:
            add(c(g), 3)
        add(("seq", ("fmap", g, "f"), EOF), 3)
        add(alt(("fmap", g, "f"), ("fmap", ("seq", S2, P_), "g")), 3, "tokens")
        if not nullable(g):
            add(("seq", ("many", ("fmap", g, "f")), EOF), 4)
            add(("seq", ("sepby", ("fmap", g, "f"), ("fmap", S3, "s")), EOF), 4)
    for g, n in recset("C24", tier, 3):
        add(g, n)
    for g in recpairs("C24", tier, 20 if not big else 3):
        add(g, 3)
    for a in OPERANDS:
        for o in OPERATORS[:4]:
            for ch in ("chainl", "chainr"):
                add(ctx_rest((ch, ("fmap", a, "x"), ("fmap", o, "o"))), 4)
    for g in (("many", alt(AB, S3)), ("sepby", alt(S1, AB), S2), ("many", alt(("attempt", AB), S1)), ("chainl", S1, S2), ("chainr", alt(S1, P_), S2),
              ("many", ("seq", ("maybe", S1), S2)), ("many", alt(S1, alt(S2, S3)))):
        add(g, 6, max_paths=4 * mp)
        add(("seq", g, EOF), 6, max_paths=4 * mp)
        for f in (("label", "l"), ("recover",), ("rw", 0), ("block",), ("delay",)):
            for h in ("seq", "alt"):
                # wrappers in wrappers: a step taken twice in each would be taken 2^6 times
                x = ("sat", "p")
                for k in range(6):
                    y = (f[0], x) + f[1:]
                    x = ("seq", y, ("maybe", S3)) if h == "seq" else alt(y, S3)
                if g[0] == "many" and g[1][0] == "alt":
                    add(x, 2)
    nest = ("sat", "p")
    for k in range(6):
        nest = [("maybe", nest), ("attempt", ("seq", nest, S1)), alt(("seq", nest, S2), S3), ("seq", nest, ("many", ("attempt", AB))),
                ("label", nest, "n"), ("fmap", nest, "f")][k % 6]
        add(nest, 3)
        add(("seq", nest, EOF), 3)
    for g in (JSON, EXPR, STMTS, JSONR, EXPRR):
        add(g, 3)
    for i in range(300 if not big else 3000):
        g = Gen("C24/%d" % i).g(3 if i % 3 else 4)
        add(("seq", g, EOF) if i % 2 else g, 3)
        add(("seq", ("fmap", g, "f"), EOF), 3, "tokens")
    for i in range(60 if not big else 600):
        gen = Gen("C24/l%d" % i, layout=True)
        add(("seq", gen.lay(3), EOF), 3, "own")
    for i in range(40 if not big else 400):
        add(("fmap", Gen("C24/t%d" % i, text=True).g(3), "f"), 3, "text")
    for g in dead()[::3] + through()[::3]:
        add(g, 3)
    t += stretch("steps", None, (120, 300), w="tokens") + mistakes("steps", None, w="tokens")
    return t


WIDE = {"C01": [("plain", PLAIN, {})], "C02": [("plain", FULL, {}), ("rec", ["accept"], {})], "C03": [("plain", PLAIN, {})],
        "C05": [("plain", PLAIN, {})], "C07": [("plain", FULL, {})], "C13": [("agree", None, dict(ins="sym<=3"))],
        "C14": [("first", None, dict(ins="sym<=3", attempt=False))], "C17": [("rec", R5, {})],
        "C18": [("rec", R5 + ["prio"], {})], "C21": [("rec", ["accept", "avail", "norep", "exp", "loc", "items"], {})]}


def sharing(f):
    """Every other program is built with one parser per distinct part; some are
    built from parser classes of the user's own, or with predicates that return
    something merely true or false."""
    def tasks(tier):
        t = f(tier)
        for h, asp, kw in WIDE.get(f.__name__.upper(), ()):
            t += wides(h, asp, tier, **kw)
        for i, x in enumerate(t):
            if "g" not in x:
                continue
            if i % 2:
                x["hc"] = 1
            if i % 6 == 2:
                x["wrap"] = 1
            if i % 7 == 3:
                x["truthy"] = 1
            if i % 5 == 4:
                x["fn"] = 1
            if i % 11 == 5:
                x["odd"] = 1
        return t
    return tasks


TASKS = {k.upper(): sharing(v) for k, v in list(globals().items()) if k[0] == "c" and k[1:].isdigit()}

REQUIRED = {
    "C01": ["accept", "reject", "reject after consuming", "accept without consuming", "repair"],
    "C02": ["accept", "reject", "reject after consuming", "accept without consuming"],
    "C03": ["accept", "reject", "reject after consuming", "runtime", "repair"],
    "C04": ["accept", "reject", "reject after consuming", "repair", "op called"],
    "C05": ["accept", "reject", "reject after consuming", "defined ok", "defined err", "defined twice", "undefined", "fmap called", "bind called",
            "purefn called"],
    "C06": ["accept", "reject", "accept without consuming", "repair"],
    "C07": ["accept", "reject", "reject after consuming"],
    "C08": ["1 items", "2 items", "errors 2", "repaired value", "no repair", "accepted", "fmap depth 2"],
    "C09": ["cut in 4", "cut in 1", "2 items", "1 items"],
    "C10": ["lexing error", "0 tokens", "4 tokens", "empty match"],
    "C11": ["accept", "reject", "repair", "2 errors", "equal", "different", "found", "not found", "rejected at 2"],
    "C12": ["accept", "reject", "reject after consuming", "repair", "2 errors"],
    "C13": ["plain ok", "plain err", "repaired", "plain exc"],
    "C14": ["rejected, repaired", "rejected, no repair"],
    "C15": ["1 operations", "2 operations", "4 operations"],
    "C16": ["0 insertions in a row", "2 insertions in a row", "4 insertions in a row", "no repair"],
    "C17": ["repair", "no repair", "4 errors", "accept"],
    "C18": ["repair", "no repair", "2 errors", "accept"],
    "C19": ["built", "2 results", "3 results", "nested", "1 switches", "2 switches", "3 switches", "twin", "change", "pop", "spoilt", "mapped"],
    "C20": ["runtime", "repair", "no repair", "accept"],
    "C22": ["accept", "reject", "repair", "2 errors"],
    "C23": ["raised, plain", "raised, recovering"],
    "C21": ["repair", "no repair", "4 errors"],
    "C24": ["test, fast", "test, rec", "eq, rec rejected", "fmap, rec", "bind, fast rejected", "purefn, rec", "op, fast", "5+ steps"],
}
