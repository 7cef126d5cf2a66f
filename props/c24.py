"""C24: a failing step never lets its plan continue, and is reported."""

from symx.api import harness
from .prog import *
from .prog import lst as L
from .c15 import Gen, KINDS, RULES

BOUNDS = {
    "quick": "one failing step out of 19 kinds (failing action or condition, missing plan, ill-typed or unbound operation, exceptions of four types in actions, non-ground belief) at 11 places (plan body, subgoal, nested subgoal, branches, loop bodies, belief and test plans, conditions, contexts), guarded by symbolic values so that it fails or not; the host then keeps running the environment; 2 other intentions and a second agent; 12 kinds of steps that are not failures; plan bodies of constructs nested to depth 2, in subgoals, belief plans and test plans, with one step that fails depending on symbolic values, among other intentions, against a reference interpreter",
    "thorough": "as quick with two failing steps"}
OUTSIDE = ["exceptions that are not subclasses of Exception (KeyboardInterrupt)", "errors while the initial beliefs and goals are loaded (C10)"]
ASSUMPTIONS = []

FAILING = {
    "fail": ".fail", "cond": "p(9)", "eq": "1 = 2", "cmp": "3 < 2", "not": "not p(5)", "missing": "!nope(1)", "missing2": "!!nope(1)",
    "test": "?p(9)", "type": "ka(A1) & X1 = 1 + A1", "unbound": "X2 = Q + 1", "bool": "kb(B1) & X3 = 1 + B1", "zero": "X4 = 1 / Z0",
    "order": "ka(A2) & A2 < 1", "value": ".boom(0)", "key": ".boom(1)", "assert": ".boom(2)", "asl": ".boom(3)", "open": "+r(Q)", "nth": ".nth(5, [1], X5)"}
NOT_FAILING = ["-p(9)", "+p(5)", "-p(_)", "+r(1)", "if (p(9)) { .rec(no) }", "while (p(9)) { .rec(no) }", "for (p(9)) { .rec(no) }",
               "-+p(7)", "+s(1)", ".abolish(p(9))", "if (not p(5)) { .rec(no) } else { .rec(else0) }", "for (.fail) { }"]

PLACES = {
    "body": "+!s <- .rec(1); %s; .rec(2).",
    "first": "+!s <- %s; .rec(2).",
    "sub": "+!s <- .rec(1); !t; .rec(2).\n+!t <- .rec(3); %s; .rec(4).",
    "deep": "+!s <- !t(1); .rec(2).\n+!t(A) <- !u(A); .rec(3).\n+!u(A) <- %s; .rec(4).",
    "then": "+!s <- if (p(5)) { %s; .rec(3) } else { .rec(4) }; .rec(2).",
    "else": "+!s <- if (p(9)) { .rec(3) } else { .rec(4); %s; .rec(5) }; .rec(2).",
    "for": "+!s <- for (.range(2, I)) { .rec(I); %s; .rec(3) }; .rec(2).",
    "while": "+!s <- while (p(5)) { %s; -p(5); .rec(3) }; .rec(2).",
    "belief": "+!s <- .rec(1); +b(1); .rec(2).\n+b(A) <- .rec(3); %s; .rec(4).",
    "testplan": "+!s <- .rec(1); ?g(1); .rec(2).\n+?g(A) <- .rec(3); %s; .rec(4).",
    "later": "+!s <- !!t; .rec(1).\n+!t <- .rec(3); %s; .rec(4).",
}
# what is recorded when the step fails, and when it does not
EXPECT = {
    "body": ([1], [1, 2]), "first": ([], [2]), "sub": ([1, 3], [1, 3, 4, 2]), "deep": ([], [4, 3, 2]),
    "then": ([], [3, 2]), "else": ([4], [4, 5, 2]), "for": ([0], [0, 3, 1, 3, 2]), "while": ([], [3, 2]),
    "belief": ([1, 3], [1, 3, 4, 2]), "testplan": ([1, 3], [1, 3, 4, 2]), "later": ([1, 3], [1, 3, 4])}


def world(sx):
    w = World(sx)

    @w.actions.add(".boom", 1)
    def _boom(agent, term, intention):
        k = agentspeak.grounded(term.args[0], intention.scope)
        for i, e in enumerate((ValueError, KeyError, AssertionError, AslError)):
            if k == i:
                raise e("boom")
        yield
    return w


OTHER = "\n!o1.\n+!o1 <- .rec(o); !o2; .rec(o).\n+!o2 <- .rec(o).\n"


def split_records(w, name):
    main = [r[0] for n_, r in w.out if n_ == name and not isinstance(r[0], Literal)]
    other = [r[0] for n_, r in w.out if n_ == name and isinstance(r[0], Literal)]
    return main, other


def drive(w, limit=8):
    """Runs until idle, catching the reported errors; other exceptions propagate."""
    n_ = 0
    while True:
        try:
            w.env.run()
            return n_
        except AggregatedError as err:
            n_ += 1
            if n_ > limit:
                return n_


@harness("C24", cases=[{"place": p} for p in sorted(PLACES)],
         reach=["the steps after the failure are not executed", "reported as one aggregated error", "located at the failing step"])
def failing(sx, place):
    """a failing step: reported once, at its line, and nothing after it runs even if the
    host keeps running the environment; other intentions are unaffected"""
    kind = sx.choose("kind", sorted(FAILING))
    other = sx.choose("other", ["before", "after"])
    step = FAILING[kind]
    plan = PLACES[place].replace("%s; ", "\n  %s;\n  ").replace("%s }", "\n %s }") % step
    src = ("!o1.\n!s.\n" if other == "before" else "!s.\n!o1.\n") + "p(5). zero(0). ka(a). kb(true).\n" + OTHER.replace("!o1.\n", "", 1) + plan + "\n"
    if kind == "zero":
        src = src.replace(step, "?zero(Z0); " + step)
    w = world(sx)
    w.build(src)
    w.build("!go.\n+!go <- .rec(o); .rec(o).\n", name="second")
    line = [i for i, l in enumerate(src.split("\n")) if l.strip().endswith(step + ";")][0] + 1
    with Capture() as cap:
        try:
            w.env.run()
            errors = 0
        except AggregatedError as err:
            errors = 1
            sx.check(err.num_errors == 1, "reported as one aggregated error")
        sx.check(errors == 1, "reported as one aggregated error")
        locs = cap.errors()
        sx.check(len(locs) == 1 and locs[0] is not None and locs[0].lineno == line, "located at the failing step")
        main, _ = split_records(w, "ag")
        sx.check(main == EXPECT[place][0], "the steps after the failure are not executed")
        more = drive(w)
    sx.observe("more", more)
    sx.check(more == 0, "reported as one aggregated error")
    main, others = split_records(w, "ag")
    sx.check(main == EXPECT[place][0], "the steps after the failure are not executed later either")
    sx.check(len(others) == 3, "other intentions are unaffected")
    sx.check(len([1 for n_, r in w.out if n_ == "second"]) == 2, "other agents are unaffected")


@harness("C24", cases=[{"place": p} for p in sorted(PLACES)], reach=["fails exactly when its condition does"])
def symbolic(sx, place):
    """the step fails exactly when the symbolic values make it fail"""
    x, y = sx.num("x", 0, 2), sx.num("y", 0, 2)
    N = sx.numeral
    steps = {"%s < %s" % (N(x), N(y)): sx.lt(x, y), "q(%s)" % N(y): sx.eq(x, y), "R = f(%s, %s) & R = f(V, V)" % (N(x), N(y)): sx.eq(x, y),
             "?q(%s)" % N(y): sx.eq(x, y), ".boom(%s + 3)" % N(x): sx.Not(sx.eq(x, 0)), "!w(%s)" % N(y): sx.eq(x, y),
             ".nth(%s, [1, 2], E)" % N(x): sx.lt(x, 2), ".member(%s, [%s, 2])" % (N(x), N(y)): sx.Or(sx.eq(x, y), sx.eq(x, 2)),
             "D = 1 / %s" % N(x): sx.Not(sx.eq(x, 0))}
    step = sx.choose("step", sorted(steps, key=lambda t: len(t) * 0))
    w = world(sx)
    try:
        w.build("!s.\np(5). q(%s).\n+!w(%s) <- .rec(o).\n" % (N(x), N(x)) + PLACES[place] % step + "\n")
    except AggregatedError:
        sx.assume(False)
    try:
        w.env.run()
        failed = False
    except AggregatedError:
        failed = True
    sx.check(sx.Iff(failed, sx.Not(steps[step])), "fails exactly when its condition does")
    sx.check(drive(w) == 0, "reported once")
    main, _ = split_records(w, "ag")
    sx.check(main == EXPECT[place][0 if failed else 1], "continues exactly when it holds")


@harness("C24", cases=[{"place": p} for p in sorted(PLACES)])
def not_failing(sx, place):
    """steps that are no failures let the plan continue"""
    step = sx.choose("step", NOT_FAILING)
    w = world(sx)
    w.build("!s.\np(5).\n" + PLACES[place] % step + "\n+s(_) : p(9) <- .rec(o).\n")
    sx.check(drive(w) == 0, "no error")
    main, other = split_records(w, "ag")
    want = EXPECT[place][1]
    if place in ("then", "while") and step in ("-p(_)", "-+p(7)"):
        want = [3, 2]
    sx.check(main == want, "the plan continues")
    sx.check(not any(r.functor == "no" for r in other), "conditions that do not hold")


CONDS = {"if (%s) { .rec(3) } else { .rec(4) }": "if", "while (%s) { .rec(3) }": "while", "for (%s) { .rec(3) }": "for",
         "!c": "context", "+b(1)": "belief context", "not (%s)": "not", "-p(1 + %s0)": "remove", ".findall(A, r(A), L)": "rule"}


@harness("C24", reach=["ill-typed conditions are failures"])
def conditions(sx):
    """an ill-typed or raising condition is a failure of its step, not a false condition"""
    form = sx.choose("form", sorted(CONDS))
    bad = sx.choose("bad", ["ka(A1) & 1 + A1 < 2", "Q < 1", "ka(A1) & A1 < 1", ".boom(0)", ".boom(3)", "p(X) & ka(Y) & X < Y"])
    step = form % bad if form.count("%s") == 1 and "%s0" not in form else form
    if "%s0" in form:
        sx.assume(bad == "Q < 1")
        step = "-p(1 + Q0)"
    tail = ""
    if "context" in CONDS[form]:
        tail = "+!c : %s <- .rec(5).\n+!c <- .rec(6).\n+b(_) : %s <- .rec(5).\n+b(_) <- .rec(6).\n" % (bad, bad)
    if CONDS[form] == "rule":
        tail = "r(X) :- p(X) & %s.\n" % bad
    src = "p(5). ka(a).\n!s.\n%s+!s <- .rec(1);\n  %s;\n  .rec(2).\n" % (tail, step)
    w = world(sx)
    w.build(src)
    line = src.split("\n").index("  " + step + ";") + 1
    with Capture() as cap:
        n_ = drive(w)
        locs = cap.errors()
    sx.check(n_ == 1, "ill-typed conditions are failures")
    main, _ = split_records(w, "ag")
    sx.check(main == [1], "the steps after the failure are not executed")
    sx.check(len(locs) == 1 and locs[0] is not None and locs[0].lineno == line, "located at the failing step")


FAULTS = [lambda g: ("do", ("cmp", "<", g.k(), n(1))), lambda g: ("achieve", a("w", g.k())), lambda g: ("test", a("q", g.k())),
          lambda g: ("do", ("eq", X_, g.k())), lambda g: ("later", a("w", g.k())), lambda g: ("rec", ("op", "+", X_, g.k())),
          lambda g: ("add", a("b", X_))]
X_ = v("X")


class Small(Gen):
    def cond(self):
        return ("cmp", "<", self.k(), n(1))

    def gen(self):
        return ("act", ".range", self.k(), X_)


@harness("C24", quick=[{"outer": k, "via": "sub", "small": True} for k in KINDS] + [{"outer": "if", "via": t, "small": True} for t in ("belief", "test", "removal", "later")],
         thorough=[{"outer": k, "via": t, "small": t != "sub"} for k in KINDS for t in ("sub", "belief", "test", "removal", "later")],
         reach=["the records of the reference", "failures"])
def composed(sx, outer, via, small):
    """a step that fails depending on values, anywhere inside of nested constructs and called
    plans, drops exactly its own intention, whatever the host does afterwards"""
    g = Small(sx) if small else Gen(sx)
    fault = sx.choose("fault", FAULTS)(g)
    where = sx.choose("where", ["alone", "after", "more"])
    after = [g.rec()] if where == "after" else []
    inner = [g.construct(sx.choose("inner", KINDS), [fault] + after, [g.rec()])]
    if where == "more":
        inner = inner + [g.rec()]
    st = g.construct(outer, inner, [g.rec()])
    body = [st, g.rec()]
    call = {"sub": ("achieve", a("t", X_)), "belief": ("add", a("t", n(1))), "test": ("test", a("t", n(1))),
            "removal": ("remove", a("u", n(1))), "later": ("later", a("t", n(1)))}[via]
    trig = {"sub": "+!", "belief": "+", "test": "+?", "removal": "-", "later": "+!"}[via]
    head = {"removal": a("u", v("A")), "sub": a("t", X_)}.get(via, a("t", v("A")))
    plans = [("+!", a("s"), ("true",), [("rec", n(1)), call, ("rec", n(2))]),
             (trig, head, ("true",), [("rec", n(3))] + body),
             ("+!", a("w", n(1)), ("true",), [("rec", n(4))]),
             ("+!", a("o"), ("true",), [("rec", n(5)), ("achieve", a("o2")), ("rec", n(6))]),
             ("+!", a("o2"), ("true",), [("rec", n(7))])]
    beliefs = g.beliefs() + ([a("u", n(1))] if via == "removal" else [])
    goals = [a("o"), a("s"), a("o")]
    ref = RefAgent(sx, [], RULES, plans)
    for b in beliefs:
        ref.add(b)
    want = ref.run_all(goals)
    w = world(sx)
    w.build(show_program(sx, beliefs, RULES, goals, plans))
    got = drive(w)
    sx.observe("failures", got)
    sx.check(got == want, "failures")
    rows = [row_norm(r) for r in w.recs()]
    sx.check(rows_equal(sx, rows, [flat_row(r) for r in ref.out], True), "the records of the reference")
    sx.check(not w.env.agents["ag"].intentions, "nothing is left to run")
