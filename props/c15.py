"""C15: plan bodies execute with structured control flow."""

from symx.api import harness
from .prog import *
from .prog import lst as L

BOUNDS = {
    "quick": "bodies of up to 2 steps nested to depth 2 (if with and without else, for over .member/.range/rules, counter-controlled while, empty bodies, bodies ending in a construct, constructs inside constructs in every combination), symbolic conditions and iteration counts in [0,2]; loop bodies that change the facts they range over (2 facts); loop bodies that bind variables; subgoals, tests and updates inside of constructs",
    "thorough": "as quick with 2-step bodies at both nesting levels"}
OUTSIDE = ["the order in which a for loop visits the facts of one predicate (a set)"]
ASSUMPTIONS = []

X, Y, Z = v("X"), v("Y"), v("Z")
N = v("N")
RULES = [(a("q", v("A")), ("act", ".member", v("A"), L(n(2), n(1))))]


class Gen(object):
    def __init__(self, sx):
        self.sx = sx
        self.tag = 0
        self.counters = 0

    def rec(self):
        self.tag += 1
        return ("rec", n(100 + self.tag), X, Y, Z)

    def k(self):
        return n(self.sx.num("k", 0, 2))

    def cond(self):
        return self.sx.choose("cond", [lambda: ("eq", Y, self.k()), lambda: ("lit", "q", X), lambda: ("cmp", "<", self.k(), n(1)),
                                       lambda: ("act", ".member", Z, L(self.k(), n(1)))])()

    def gen(self):
        return self.sx.choose("gen", [lambda: ("act", ".range", self.k(), X), lambda: ("act", ".member", Z, L(n(1), self.k())),
                                      lambda: ("and", ("lit", "q", X), ("cmp", "<=", X, self.k()))])()

    def counter(self):
        self.counters += 1
        return "c%d" % self.counters

    def body0(self):
        kind = self.sx.choose("b0", ["rec", "empty", "bind"])
        return [self.rec()] if kind == "rec" else [] if kind == "empty" else [("do", ("eq", Y, n(1))), self.rec()]

    def while_(self, body):
        c = self.counter()
        return ("while", ("and", ("lit", c, N), ("cmp", "<", N, self.k())), [("replace", a(c, ("op", "+", N, n(1))))] + body)

    def construct(self, kind, inner, other=None):
        if kind == "if":
            return ("if", self.cond(), inner, None)
        if kind == "ifelse":
            return ("if", self.cond(), inner, other)
        if kind == "elseif":
            return ("if", self.cond(), other, inner)
        if kind == "for":
            return ("for", self.gen(), inner)
        return self.while_(inner)

    def beliefs(self):
        return [a("c%d" % (i + 1), n(0)) for i in range(self.counters)]


KINDS = ["if", "ifelse", "elseif", "for", "while"]


@harness("C15", quick=[{"outer": k, "two": False} for k in KINDS], thorough=[{"outer": k, "two": True} for k in KINDS],
         reach=["same records in the same order"])
def nested(sx, outer, two):
    """every construct inside every construct, in the middle and at the end of bodies"""
    g = Gen(sx)
    inner_kind = sx.choose("inner", KINDS)
    inner = [g.construct(inner_kind, g.body0(), [g.rec()])]
    where = sx.choose("where", ["alone", "before", "after"])
    if where == "before":
        inner = inner + [g.rec()]
    elif where == "after":
        inner = [g.rec()] + inner
    if two:
        inner.append(g.construct(sx.choose("inner2", KINDS), g.body0(), []))
    body = [g.construct(outer, inner, sx.choose("other", [[], [("do", ("eq", Z, n(7))), ("rec", n(99), Z)]]))]
    if sx.flag("then"):
        body.append(g.rec())
    check(sx, g, body)


def check(sx, g, body, extra=()):
    main = ("+!", a("s"), ("true",), body)
    end = ("+!", a("e"), ("true",), [("achieve", a("s")), ("rec", n(0))])
    against_reference(sx, g.beliefs(), RULES, [a("e")], [main, end] + list(extra))


@harness("C15")
def sequences(sx):
    """constructs one after the other, with empty bodies"""
    g = Gen(sx)
    body = []
    for _ in range(2):
        body.append(g.construct(sx.choose("kind", KINDS), g.body0(), sx.choose("other", [[], [("rec", n(50))]])))
    check(sx, g, body + [g.rec()])


@harness("C15")
def bindings(sx):
    """then-branches keep the condition's bindings, else-branches and loops do not"""
    g = Gen(sx)
    kind = sx.choose("kind", KINDS)
    k = g.k()
    inner = sx.choose("inner", [[("do", ("eq", Y, k)), g.rec()], [("do", ("act", ".member", Y, L(k, n(2)))), g.rec()],
                                [("achieve", a("sub", X, Y)), g.rec()], [("test", a("q", Y)), g.rec()],
                                [("do", ("eq", X, Y)), g.rec()]])
    pre = sx.choose("pre", [[], [("do", ("eq", X, n(1)))], [("do", ("eq", Y, k))]])
    gens = {"for": [("act", ".range", n(2), Z), ("cmp", "<", k, n(2)), ("not", ("eq", k, n(1))), ("true",), ("eq", Z, k),
                    ("or", ("lit", "q", k), ("lit", "q", n(2))), ("lit", "q", Z)]}
    if kind == "for":
        st = ("for", sx.choose("gen", gens["for"]), inner)
    else:
        st = g.construct(kind, inner, [("do", ("eq", Z, k)), g.rec()])
    sub = ("+!", a("sub", v("A"), v("B")), ("true",), [("do", ("eq", v("B"), L(v("A"), k)))])
    check(sx, g, pre + [st, g.rec()], [sub])


@harness("C15")
def effects(sx):
    """subgoals, goals posted for later, updates and loops in subgoals"""
    g = Gen(sx)
    outer = sx.choose("outer", KINDS)
    inner = sx.choose("inner", [[("achieve", a("t", X))], [("later", a("t", n(1))), g.rec()], [("add", a("b", n(1))), ("test", a("b", Y))],
                                [("remove", a("b", W)), g.rec()], [("achieve", a("loop", n(2)))]])
    st = g.construct(outer, inner, [g.rec()])
    extra = [("+!", a("t", v("A")), ("true",), [("rec", n(60), v("A"))]), ("+", a("b", v("A")), ("true",), [("rec", n(61), v("A"))]),
             ("-", a("b", W), ("true",), [("rec", n(62))]),
             ("+!", a("loop", v("A")), ("true",), [("for", ("act", ".range", v("A"), v("B")), [("if", ("eq", v("B"), g.k()), [("rec", v("B"))], None)])])]
    check(sx, g, [st, g.rec()], extra)


@harness("C15", reach=["once for every fact", "final contents"])
def changing_facts(sx):
    """loops and tests over facts that the body adds or removes"""
    N_ = sx.numeral
    x, y = sx.num("x", 0, 2), sx.num("y", 0, 2)
    gen = sx.choose("gen", ["p(X)", "r(X)", "p(X) & X >= 0", "p(X) & not z(X)"])
    body = sx.choose("body", ["-p(X)", "+p(X + 10)", "-p(X); +p(X)", ".abolish(p(_))", "+z(X); -p(X)"])
    kind = sx.choose("kind", ["for", "while"])
    if kind == "while":
        # only loops that make their condition fail
        sx.assume(body in ("-p(X)", ".abolish(p(_))", "+z(X); -p(X)"))
    w = World(sx)
    w.build("p(%s). p(%s).\nr(A) :- p(A).\n!s.\n+!s <- %s (%s) { .rec(it, X); %s }; .rec(fin); for (p(X)) { .rec(left, X) }.\n"
            % (N_(x), N_(y), kind, gen, body))
    status = w.run()
    sx.observe("status", status)
    sx.check(status == "ok", "the loop ends normally")
    its = [r[1] for r in w.recs() if r[0].functor == "it"]
    left = [r[1] for r in w.recs() if r[0].functor == "left"]
    facts = [x] if sx.truth(sx.eq(x, y)) else [x, y]
    if kind == "while" and body == ".abolish(p(_))":
        sx.check(len(its) == 1, "once for every fact")
    else:
        sx.check(sx.multiset(its, facts), "once for every fact")
    if body in ("-p(X)", ".abolish(p(_))", "+z(X); -p(X)"):
        sx.check(left == [], "final contents")
    elif body == "+p(X + 10)":
        sx.check(sx.multiset(left, facts + [f + 10 for f in facts]), "final contents")
    else:
        sx.check(sx.multiset(left, facts), "final contents")
