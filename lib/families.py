"""The tasks of every property: which grammars (structure) over which symbolic
inputs, within which bounds."""
import os
import random

S1, S2, S3 = ("sym", 1), ("sym", 2), ("sym", 3)
S0 = ("sym", 0)
ANY, EOF, PURE, UNEXP = ("any",), ("eof",), ("pure", 0), ("unexp", "u")
AB = ("seq", S1, S2)
ABC = ("seq", ("seq", S1, S2), S3)
P_, Q_ = ("sat", "p"), ("sat", "q")
REST = ("many", ANY)


def alt(*gs):
    return ("alt",) + gs


def seq(*gs):
    g = gs[0]
    for h in gs[1:]:
        g = ("seq", g, h)
    return g


# -- contexts that make consumption, position and expectations observable
def ctx_bare(g):
    return g


def ctx_rest(g):
    return ("seq", g, REST)


def ctx_alt(g):
    return alt(g, ("fmap", REST, "other"))


def ctx_next(g):
    return ("seq", g, ("sym", 9))


def ctx_in(g):
    return ("seq", ("sym", 7), ("seq", g, EOF))


def ctx_altnext(g):
    return alt(("seq", g, ("sym", 7)), ("sym", 8))


def ctx_many(g):
    return ("seq", ("many", g), REST)


def ctx_maybe(g):
    return ("seq", ("maybe", g), ("seq", ("maybe", ("sym", 8)), EOF))


CTX = [ctx_bare, ctx_rest, ctx_alt, ctx_next, ctx_in, ctx_altnext]


def plain(g, n, asp=(), **k):
    return dict(h="plain", g=g, n=n, asp=list(asp), **k)


def rec(g, n, asp, **k):
    return dict(h="rec", g=g, n=n, asp=list(asp), **k)


def nullable(g):
    k = g[0]
    if k in ("pure", "purefn", "eof", "maybe", "many", "sepby"):
        return True
    if k in ("sym", "sat", "any", "none", "not", "unexp", "lit", "letter", "digit", "tok", "tokins"):
        return False
    if k == "re":
        return g[1] in ("a*", "[0-9]*", " *")
    if k in ("seq", "seql", "seqr", "seqm", "seqlm", "seqrm", "seqlf", "seqrf", "then", "apply"):
        return all(nullable(x) for x in g[1:])
    if k in ("alt", "altf"):
        return any(nullable(x) for x in g[1:])
    if k in ("between", "betweenf"):
        return all(nullable(x) for x in g[1:])
    if k in ("bind", "bindf"):
        return nullable(g[1]) and not (g[2] == "same") and (g[2] != "then" or nullable(g[3]))
    if k in ("block", "aligned", "fmap", "fmapf", "attempt", "label", "recover", "rw", "rwf", "delay",
             "delay2", "delay3", "opq", "special", "grow", "custom", "chainl", "chainr", "chainlc", "chainrc", "chainlv", "chainrv", "as"):
        return nullable(g[1])
    if k == "indented":
        return nullable(g[2])
    if k == "share":
        return nullable(g[2])
    return False


# -- random programs (deterministic: the seed is part of the program list)

class Gen:
    def __init__(self, seed, retain=False, attempt=True, recover=True, labels=True, text=False,
                 layout=False, lexed=False, drop=True):
        self.r = random.Random(seed)
        self.retain, self.attempt, self.recover = retain, attempt, recover
        self.labels, self.text, self.layout, self.lexed = labels, text, layout, lexed
        self.k = 0
        self.map = {}
        self.pool = []

    def again(self, d):
        """A part that was already used, so that one parser serves in several places."""
        if self.pool and self.r.random() < .12:
            x = [g for g, e in self.pool if e <= d]
            if x:
                return self.r.choice(x)
        return None

    def g(self, d):
        x = self.again(d)
        if x is None:
            x = self.g1(d)
            self.pool.append((x, d))
        return x

    def lay(self, d):
        x = self.again(d)
        if x is None:
            x = self.lay1(d)
            self.pool.append((x, d))
        return x

    def leaf(self):
        r = self.r
        if self.text:
            c = r.random()
            if c < .45:
                return ("lit", r.choice(["a", "b", "ab", "\n", "a\n", "ba"]))
            if c < .65:
                return ("re", *r.choice([("[0-9]+",), ("a+",), ("a?b",), ("[^a]",), ("\\s+",), ("a(b?)", 1), ("(a)|b", 0)]))
            if c < .8:
                return ("sym", r.choice("ab\n"))
            if c < .87:
                return r.choice([("letter",), ("digit",)])
            if c < .95:
                return ANY
            return EOF
        if self.lexed:
            c = r.random()
            if c < .6:
                return ("tok", r.choice("abc"))
            if c < .9:
                return ("tokins", r.choice("abc"), "i")
            return r.choice([ANY, EOF])
        c = r.random()
        if c < .62:
            return ("sym", r.choice([1, 1, 2, 2, 3, 0]))
        if c < .70:
            self.k += 1
            lab = "s%d" % self.k
            v = r.choice([1, 2])
            self.map[lab] = v
            return ("sym", v, lab)
        if c < .82:
            return ("sat", r.choice("pq"))
        if c < .86:
            return ANY
        if c < .90:
            return EOF
        if c < .94:
            return ("pure", None) if self.retain else ("pure", r.choice([0, 5, None, ""]))
        if c < .96:
            return ("none",)
        return ("unexp", r.choice(["u", ""]))

    def g1(self, d):
        r = self.r
        if d == 0:
            return self.leaf()
        c = r.random()
        if c < .30:
            k = "seq"
            if not self.retain:
                k = r.choice(["seq", "seq", "seq", "seql", "seqr", "seqm", "seqlf", "seqrf"])
            return (k, self.g(d - 1), self.g(d - 1))
        if c < .36:
            if self.retain:
                return ("then", self.g(d - 1), self.g(d - 1), self.leaf())
            return r.choice([("then", self.g(d - 1), self.leaf(), self.g(d - 1)),
                             ("apply", self.g(d - 1), self.leaf(), self.leaf())])
        if c < .58:
            n = r.choice([2, 2, 2, 3])
            return alt(*[self.g(d - 1) for _ in range(n)])
        if c < .64:
            return ("maybe", self.g(d - 1))
        if c < .73:
            x = self.nonempty(d - 1)
            return ("many", x)
        if c < .77:
            if self.retain:
                return ("chainl", self.nonempty(d - 1), self.leafne())
            return r.choice([("sepby", self.nonempty(d - 1), self.leafne()),
                             ("chainl", self.nonempty(d - 1), self.leafne()),
                             ("chainr", self.nonempty(d - 1), self.leafne()),
                             ("between", self.leafne(), self.leafne(), self.g(d - 1))])
        if c < .82 and self.attempt:
            return ("attempt", self.g(d - 1))
        if c < .87 and self.labels:
            self.k += 1
            return ("label", self.g(d - 1), r.choice(["L%d" % self.k, "L%d" % self.k, ""]))
        if c < .96 and self.recover and not self.text:
            k = r.random()
            if k < .35:
                return ("recover", self.g(d - 1))
            self.k += 1
            lab = r.choice([None, "R%d" % self.k])
            if k < .75:
                v = "v%d" % self.k if self.retain else r.choice(["v%d" % self.k, 0, None, 4])
                if lab:
                    self.map[lab] = v
                return ("rw", self.g(d - 1), v, lab)
            tag = "t%d" % self.k
            if lab:
                self.map[lab] = "rwf:" + tag
            return ("rwf", self.g(d - 1), tag, lab)
        if c < .96 and self.recover:
            return ("recover", self.g(d - 1))
        if self.layout:
            return r.choice([("block", self.g(d - 1)), ("aligned", self.g(d - 1)),
                             ("indented", r.choice([0, 1, 2, "d"]), self.g(d - 1))])
        if not self.text and not self.lexed:
            return r.choice([("fmap", self.g(d - 1), "m"), ("bind", self.g(d - 1), "then", self.g(d - 1)),
                             ("bind", self.leafne(), "same"), ("delay", self.g(d - 1))]) if not self.retain \
                else r.choice([("bind", self.g(d - 1), "then", self.g(d - 1)), ("delay", self.g(d - 1))])
        return self.g(d - 1)

    def lay1(self, d):
        """Layout-heavy."""
        r = self.r
        if d == 0:
            return self.leaf()
        c = r.random()
        if c < .45:
            return r.choice([("block", self.lay(d - 1)), ("aligned", self.lay(d - 1)),
                             ("indented", r.choice([0, 1, 2, -1, "d"]), self.lay(d - 1))])
        if c < .8:
            return ("seq", self.lay(d - 1), self.lay(d - 1))
        if c < .88:
            return alt(self.lay(d - 1), self.lay(d - 1))
        x = self.lay(d - 1)
        if c < .93:
            return r.choice([("attempt", x), ("label", x, "L"), ("delay", x), ("recover", x)])
        return ("maybe", x) if nullable(x) else ("many", x)

    def nonempty(self, d):
        for _ in range(20):
            x = self.g(d)
            if not nullable(x):
                return x
        return self.leafne()

    def leafne(self):
        for _ in range(50):
            x = self.leaf()
            if not nullable(x) and x[0] not in ("unexp", "none"):
                return x
        return ("sym", 1)


def randoms(prop, count, depth, **kw):
    """`count` (grammar, label map) pairs; the same list on every run."""
    base = int(os.environ.get("VERIF_SEED", "1"))
    out = []
    for i in range(count):
        g = Gen("%s/%d/%d/%d" % (prop, base, i, depth), **kw)
        out.append((g.g(depth), g.map))
    return out


# -- elements under recovery

RE = [S1, AB, ("sym", 0), ("label", P_, "P"), ("label", AB, "AB"), ("rw", S1, 0), ("rw", AB, "dflt", "D"),
      ("rwf", P_, "t"), ("rwf", AB, "t", "F"), ("recover", S1), ("recover", AB), alt(S1, S2),
      alt(AB, S3), alt(AB, ("recover", S3)), alt(S1, ("rw", S2, 0)), alt(S1, S2, ("recover", S3)),
      alt(("attempt", AB), S1), ("many", AB), ("many", S1), ("maybe", AB), ("seq", ("maybe", S3), S1),
      ("seq", ("many", S3), S1), ("sepby", S1, S2), ("sepby", AB, S3), ("between", S1, S2, S3),
      ("chainl", S1, S2), ("chainr", S1, alt(S2, S3)), ("attempt", AB), ("bind", ANY, "same"),
      ("bind", S1, "then", S2), ("delay", AB), ("rw", ("rw", ("label", P_, "P"), 5), 6),
      ("label", alt(AB, S3), "either"), ("seq", ("label", ("maybe", S3), "opt"), AB),
      ("apply", S1, S2, S3), ("recover", alt(AB, S3)), ("label", ("recover", S1), "r1"),
      alt(("unexp", "u"), S1), ("rw", ("unexp", "u"), 1), ("rw", ("unexp", "u"), 1, "U"),
      ("rwf", ("unexp", "u"), "x"), alt(alt(S1, S2), alt(AB, ("recover", S3))),
      ("many", alt(AB, S3)), ("many", ("rw", AB, 0)), ("seq", ("many", S1), ("many", S2)),
      ("rec", "x", alt(("between", S1, S2, ("var", "x")), S3)),
      ("rec", "x", ("maybe", ("seq", S1, ("seq", ("var", "x"), S2)))),
      ("seq", ("maybe", ("recover", S1)), S2), ("attempt", alt(AB, ("recover", S3))),
      ("none",), P_, ANY, ("seq", PURE, S1), ("seq", ("label", PURE, "nothing"), AB)]

RC = [lambda g: ("seq", g, EOF), lambda g: ("seq", ("sym", 7), ("seq", g, EOF)),
      lambda g: ("seq", g, ("sym", 9)), lambda g: g,
      lambda g: ("seq", alt(g, ("sym", 8)), EOF), lambda g: ("seq", alt(("sym", 8), g), EOF),
      lambda g: ("seq", ("maybe", g), ("seq", ("sym", 8), EOF)),
      lambda g: ("seq", ("many", g), EOF) if not nullable(g) else ("seq", ("seq", g, g), EOF),
      lambda g: ("seq", ("recover", alt(("sym", 8), g)), EOF),
      lambda g: ("label", ("seq", g, EOF), "all"),
      lambda g: ("seq", ("rw", g, 77), EOF)]

# value-retaining ones (C15)
RETAIN = [S1, AB, ABC, P_, ("rw", S1, "w"), ("rw", AB, "w", "W"), ("rwf", P_, "t"), ("rwf", AB, "t", "F"),
          ("recover", AB), alt(AB, S3), alt(AB, ("recover", S3)), alt(S1, ("rw", S2, "w")),
          ("many", AB), ("many", S1), ("maybe", AB), ("seq", ("maybe", S3), S1), ("chainl", S1, S2),
          ("chainr", S1, alt(S2, S3)), ("attempt", AB), ("bind", S1, "then", S2), ("delay", AB),
          ("then", S1, S2, S3), ("apply", S1, S2, S3), ("many", alt(AB, S3)), ("many", ("rw", AB, "w")),
          ("seq", ("many", S1), ("many", S2)), ("sym", 1, "one"), ("seq", ("sym", 1, "one"), P_),
          ("rec", "x", alt(("then", S1, ("var", "x"), S2), S3)), ("rw", ("rw", P_, "v"), "w"),
          ("rec", "x", ("maybe", ("seq", S1, ("var", "x"))))]
RLABELS = [["W", "w"], ["F", "rwf:t"], ["one", 1]]


# -- larger grammars with realistic shape, over given sentences in which some
#    tokens are arbitrary:  1:number 2:, 3:[ 4:] 5:{ 6:} 7:+ 8:* 0:;

NUM = ("label", ("sym", 1), "number")
JSON = ("rec", "v", ("label", alt(NUM, ("between", ("sym", 3), ("sym", 4), ("sepby", ("var", "v"), ("sym", 2))),
                                  ("between", ("sym", 5), ("sym", 6),
                                   ("sepby", ("seq", ("sym", 1), ("seqr", ("sym", 9), ("var", "v"))),
                                    ("sym", 2)))), "value"))
JSONR = ("rec", "v", ("rw", ("label", alt(
    NUM, ("between", ("sym", 3), ("recover", ("sym", 4)), ("sepby", ("var", "v"), ("sym", 2))),
    ("between", ("sym", 5), ("recover", ("sym", 6)),
     ("sepby", ("seq", ("rw", ("sym", 1), 1, "key"), ("seqr", ("sym", 9), ("var", "v"))), ("sym", 2)))),
    "value"), 1, "number"))
EXPR = ("rec", "e", ("chainl", ("chainl", alt(("sym", 1), ("between", ("sym", 3), ("sym", 4), ("var", "e"))),
                               ("sym", 8)), ("sym", 7)))
EXPRR = ("rec", "e", ("chainl", ("chainr", alt(("rw", ("sym", 1), 1, "number"),
                                               ("between", ("sym", 3), ("sym", 4), ("var", "e"))),
                                 ("sym", 8)), ("sym", 7)))
STMTS = ("many", ("seql", alt(("then", ("sym", 1), ("sym", 9), EXPR), ("seq", ("sym", 5), ("sym", 6))),
                  ("recover", ("sym", 0, ";"))))
X = None
LONG = [
    (JSON, [3, 1, 2, X, 2, 1, 4]), (JSON, [3, 3, 1, 4, X, 5, 1, 9, 1, 6, 4]),
    (JSON, [5, 1, 9, 3, 1, X, 4, 6]), (JSON, [3, 1, 2, 1, 2, 1, X]),
    (EXPR, [1, 7, 1, 8, X, 7, 1]), (EXPR, [3, 1, 7, 1, X, 8, 1]), (EXPR, [3, 3, 1, 4, 7, 1, X]),
    (STMTS, [1, 9, 1, 0, X, 6, 0]), (STMTS, [5, 6, X, 1, 9, 1, 0]), (STMTS, [1, 9, 1, 7, 1, X, 5, 6, 0]),
    (("many", AB), [1, 2] * 5 + [X, 2]), (("sepby", AB, S3), [1, 2, 3] * 3 + [1, X]),
    (("many", S1), [1] * 8 + [X]), (("chainl", ANY, ("sym", 7)), [1, 7, X, 7, 2, 7, 3, 7, X, 7, 1]),
]
LONGR = [
    (JSONR, [3, 1, 2, X, 2, 1, 4]), (JSONR, [3, 3, 1, X, 1, 4]), (JSONR, [5, 1, 9, X, 6]),
    (JSON, [3, 1, X, 1, 4]), (JSON, [5, X, 9, 1, 6]), (EXPR, [1, 7, X, 7, 1]), (EXPR, [3, 1, X, 8, 1]),
    (EXPRR, [1, X, 1, 7, 1]), (EXPRR, [3, X, 4, 8, 1]), (STMTS, [1, 9, 1, X, 5, 6, 0]),
    (STMTS, [5, X, 0]), (("many", AB), [1, X, 1, 2, X]), (("sepby", AB, S3), [1, 2, X, 1, 2]),
]


def stretched(k, kinds=("list", "chain", "deep", "wrap")):
    """Long sentences of simple grammars, arbitrary at the end: (grammar, sentence)."""
    out = []
    if "list" in kinds:
        out += [(("many", ANY), [1] * (k - 2) + [X, X]), (("seq", ("many", S1), ("many", ANY)), [1] * k + [X, X]),
                (("seq", ("many", AB), EOF), [1, 2] * (k // 2) + [X, X]), (("seq", ("sepby", S1, S3), ("many", ANY)), [1, 3] * (k // 2) + [X, X]),
                (("seq", ("sepby", ("maybe", S1), S3), EOF), [1, 3] * (k // 4) + [3, 1] * (k // 4) + [X]),
                (("many", ("seq", ("many", S1), S3)), ([1] * 9 + [3]) * (k // 10) + [X, X])]
    if "chain" in kinds:
        for ch in ("chainl", "chainr", "chainlc", "chainrc"):
            out += [((ch, ANY, ("sym", 7)), [1, 7] * (k // 2) + [X]), (("seq", (ch, S1, ANY), EOF), [1, 7, 1, 8] * (k // 4) + [X, X, X])]
    if "wrap" in kinds:
        for a in (("fmap", ANY, "x"), ("delay", S1), ("bind", ANY, "same"), ("label", S1, "l"), ("attempt", AB), alt(AB, S3),
                  ("seq", ("maybe", S3), S1), ("purefn", ), ("opq", S1), P_, ("not", 9)):
            if a[0] != "purefn":
                out.append((("seq", ("many", a), EOF), ([1, 2] * (k // 2) if "seq" in repr(a) and "maybe" not in repr(a) else [1] * k) + [X, X]))
        out.append((("seq", ("many", alt(AB, S3)), EOF), [3] * k + [X]))
    if "deep" in kinds:
        d = min(k, 90)
        out += [(("rec", "x", ("maybe", ("seqr", S1, ("var", "x")))), [1] * d + [X]),
                (("rec", "x", alt(("seq", S1, ("seq", ("var", "x"), S2)), S3)), [1] * d + [3] + [2] * (d - 1) + [X]),
                (("rec", "x", alt(("between", S1, S2, ("many", ("var", "x"))), S3)), [1] * (d // 2) + [2] * (d // 2 - 1) + [X, X])]
    return out


def collide():
    """Parts with several repairs that end at one place, with different costs, allowances left,
    priorities and values, followed by parts that tell them apart."""
    E_, M9 = ("eof",), ("maybe", ("sym", 9))
    xs = [alt(("attempt", ("seq", S1, ("recover", S2))), E_), alt(("seq", S1, S2), ("recover", S3)), alt(("rw", S1, "A"), ("rw", S2, "B")),
          alt(("seq", ("maybe", S1), ("recover", S2)), ("rw", S3, 0)), alt(AB, ("rw", E_, "end")), alt(("seq", S1, S1), ("seq", ("recover", S1), S2)),
          ("seq", ("rw", S1, 1), ("many", S2)), alt(("recover", AB), ("recover", ("seq", ("maybe", S1), S3))), ("rw", ("recover", AB), (1, 2)),
          alt(("attempt", ("seq", S1, ("recover", ("seq", S2, S3)))), ("rw", AB, "w"))]
    ws = [lambda x: x, lambda x: ("seq", x, M9), lambda x: ("seq", ("seq", x, M9), ("many", S9_)), lambda x: ("bind", x, "then", M9),
          lambda x: ("seq", ("label", ("seq", x, M9), "l"), ("attempt", M9)), lambda x: ("block", ("seq", x, M9))]
    fs = [S3, ("rw", S3, 0), ("seq", S3, S1), E_, ("seq", S3, E_), ("seq", ("many", AB), ("seq", S2, E_)), alt(("seq", S3, S2), ("recover", S1))]
    for i, x in enumerate(xs):
        for j, w in enumerate(ws):
            for k, f in enumerate(fs):
                yield ("seq", w(x), f)


S9_ = ("sym", 9)
