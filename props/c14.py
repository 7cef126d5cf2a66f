"""C14: events run the first applicable plan, and subgoals return their bindings."""

from symx.api import harness
from .prog import *
from .prog import lst as L

BOUNDS = {
    "quick": "three plans for one event with heads from 7 forms and contexts from 9 forms over symbolic integers in [0,2], for +!, +p, -p and +? events; achievement and test subgoals with bodies from 12 forms called with 9 argument patterns under earlier bindings; recursion to depth 4; nested calls of one plan; !! posting",
    "thorough": "as quick with 4 plans and two subgoal calls in sequence"}
OUTSIDE = ["-!g failure events (the library uses them to drop intentions, C17)"]
ASSUMPTIONS = []

X, Y, Z, U, V = v("X"), v("Y"), v("Z"), v("U"), v("V")
RULES = [(a("q", v("A")), ("act", ".member", v("A"), L(n(2), n(1)))),
         (a("w", v("A"), v("B")), ("and", ("act", ".member", v("A"), L(n(0), n(1))), ("act", ".member", v("B"), L(v("A"), n(2)))))]


def head(sx, f, small=False):
    k = n(sx.num("h", 0, 2))
    if small:
        return sx.choose("head", [a(f, k, Y), a(f, X, X), a(f, X, Y)])
    return sx.choose("head", [a(f, k, Y), a(f, X, Y), a(f, X, X), a(f, X, k), a(f, W, Y), a(f, L(X), Y), a(f, X, a("b", Y))])


def context(sx, small=False):
    k = n(sx.num("c", 0, 2))
    if small:
        return sx.choose("ctx", [("true",), ("not", ("lit", "q", X)), ("cmp", "<", Y, k)])
    return sx.choose("ctx", [("true",), ("lit", "q", X), ("lit", "w", X, Z), ("not", ("lit", "q", X)), ("false",),
                             ("eq", X, k), ("and", ("lit", "q", Z), ("cmp", "<", Z, k)),
                             ("act", ".member", X, L(k, n(2))), ("or", ("eq", X, k), ("eq", Y, k))])


def event_args(sx):
    k, m = n(sx.num("g", 0, 2)), n(sx.num("g", 0, 2))
    return sx.choose("goal", [(k, m), (L(k), m), (k, a("b", m))])


@harness("C14", quick=[{"kind": "+!", "full": 0}, {"kind": "+", "full": 1}, {"kind": "-", "full": 0}, {"kind": "+?", "full": 1}],
         thorough=[{"kind": k, "full": f} for k in ("+!", "+", "-", "+?") for f in (0, 1)] + [{"kind": "+!", "full": None}],
         reach=["same records in the same order"])
def selection(sx, kind, full):
    """three plans: the first applicable one runs, with the variables of its match"""
    args = event_args(sx)
    plans = []
    for i in range(2):
        small = full is not None and i != full
        h, c = head(sx, "g", small), context(sx, small)
        plans.append((kind, h, c, [("rec", n(i), X, Y, Z)]))
    plans.append((kind, sx.choose("last", [a("g", X, Y), a("g", n(0), Y)]) if full != 0 else a("g", X, Y), ("true",), [("rec", n(2), X, Y)]))
    goal = a("g", *args)
    step = {"+!": ("achieve", goal), "+": ("add", goal), "-": ("remove", goal), "+?": ("test", goal)}[kind]
    beliefs = [goal] if kind == "-" or (kind == "+?" and sx.flag("fallback")) else []
    main = ("+!", a("s"), ("true",), [("do", ("eq", U, n(8))), ("rec", U), step, ("rec", n(9), U)])
    against_reference(sx, beliefs, RULES, [a("s")], plans + [main])


@harness("C14")
def open_goals(sx):
    """goals with unbound variables: the plan's match binds them for the caller"""
    k, m = n(sx.num("g", 0, 2)), n(sx.num("g", 0, 2))
    goal = a("g", *sx.choose("goal", [(U, V), (U, U), (k, U), (L(U), V), (U, a("b", m)), (U, ("c", k, V)), (W, U)]))
    kind, step = sx.choose("kind", [("+!", "achieve"), ("+?", "test")])
    plans = [(kind, head(sx, "g"), context(sx), [("rec", n(1), X, Y, Z)]),
             (kind, a("g", X, Y), ("true",), [("rec", n(2), X, Y)])]
    pre = [("do", ("eq", Z, L(k)))] if sx.flag("bound before") else []
    main = ("+!", a("s"), ("true",), pre + [(step, goal), ("rec", U, V, Z)])
    against_reference(sx, [], RULES, [a("s")], [main] + plans)


def sub_body(sx):
    k = n(sx.num("b", 0, 2))
    return sx.choose("body", [
        [], [("do", ("eq", X, k))], [("do", ("eq", Y, a("f", X, Z)))], [("do", ("eq", X, Y))],
        [("do", ("act", ".member", Y, L(k, X)))], [("achieve", a("h", X)), ("achieve", a("h", Y))],
        [("achieve", a("h", a("f", X))), ("do", ("eq", Y, Z))],
        [("do", ("eq", X, k)), ("do", ("eq", Y, ("op", "+", X, n(1))))],
        [("if", ("eq", X, k), [("do", ("eq", Y, n(5)))], [("do", ("eq", Y, n(6)))])],
        [("for", ("act", ".member", Z, L(k, n(1))), [("rec", Z)]), ("do", ("eq", Y, L(X, X)))],
        [("test", a("q", Y)), ("do", ("eq", X, ("c", Y, Z)))],
        [("achieve", a("h", Z)), ("do", ("eq", X, a("p", Z, Y)))]])


@harness("C14", quick=[{"two": False}], thorough=[{"two": False}, {"two": True}])
def subgoals(sx, two):
    """what a subgoal binds is exactly what its caller sees afterwards, and nothing else"""
    k = n(sx.num("k", 0, 2))
    pre = sx.choose("pre", [[], [("do", ("eq", U, k))], [("do", ("eq", U, V))], [("do", ("eq", V, L(U, k)))]])
    args = [(U, V), (U, U), (V, U), (k, V), (a("f", U), V), (L(U, Z), V), (("op", "+", k, n(1)), U), (W, V),
            (U, ("c", V, L()))]
    goal = a("g", *sx.choose("goal", args))
    kind, step = sx.choose("kind", [("+!", "achieve"), ("+?", "test")])
    plans = [(kind, a("g", X, Y), ("true",), sub_body(sx) + [("rec", n(1), X, Y)]),
             ("+!", a("h", n(7)), ("true",), []), ("+!", a("h", X), ("true",), [("do", ("eq", Y, X)), ("rec", n(3), Y)])]
    steps = [(step, goal)]
    if two:
        steps.append((step, a("g", *sx.choose("goal", args[:5]))))
    main = ("+!", a("s"), ("true",), pre + steps + [("rec", U, V, Z, X, Y)])
    against_reference(sx, [], RULES, [a("s")], plans + [main])


@harness("C14", reach=["recursive result"])
def recursion(sx):
    """recursive plans with private variables in every activation"""
    m = sx.num("m", 0, 4)
    N, R, S = v("N"), v("R"), v("S")
    form = sx.choose("form", ["sum", "list", "two"])
    if form == "sum":
        plans = [("+!", a("c", n(0), n(0)), ("true",), []),
                 ("+!", a("c", N, R), ("true",), [("achieve", a("c", ("op", "-", N, n(1)), S)),
                                                 ("do", ("eq", R, ("op", "+", S, N)))])]
    elif form == "list":
        plans = [("+!", a("c", n(0), L()), ("true",), []),
                 ("+!", a("c", N, ("c", N, R)), ("true",), [("rec", N), ("achieve", a("c", ("op", "-", N, n(1)), R)), ("rec", R)])]
    else:
        plans = [("+!", a("c", N, n(1)), ("cmp", "<", N, n(2)), []),
                 ("+!", a("c", N, R), ("true",), [("achieve", a("c", ("op", "-", N, n(1)), X)),
                                                 ("achieve", a("c", ("op", "-", N, n(2)), Y)),
                                                 ("do", ("eq", R, ("op", "+", X, Y)))])]
    main = ("+!", a("s"), ("true",), [("achieve", a("c", n(m), R)), ("rec", R)])
    against_reference(sx, [], [], [a("s")], [main] + plans, "recursive result")


@harness("C14")
def later(sx):
    """!! posts a separate intention: the poster goes on, and shares no variables with it"""
    k = n(sx.num("k", 0, 2))
    goal = a("g", *sx.choose("goal", [(U, V), (k, V), (U, a("f", V)), (L(U, k), n(1))]))
    pre = sx.choose("pre", [[], [("do", ("eq", U, k))]])
    post = sx.choose("post", [[], [("do", ("eq", V, n(2)))], [("achieve", a("t", V))]])
    kind = sx.choose("kind", ["later", "both", "inner"])
    plans = [("+!", a("g", X, Y), ("true",), [("rec", n(1), X, Y)] + ([("achieve", a("t", X))] if kind == "inner" else []) +
              [("do", ("eq", Y, Z)), ("rec", n(2), X, Y)]),
             ("+!", a("t", X), ("true",), [("rec", n(4), X)])]
    steps = [("later", goal)] + ([("later", a("t", U))] if kind == "both" else [])
    main = ("+!", a("s"), ("true",), pre + steps + [("rec", n(3), U, V)] + post + [("rec", n(5), U, V)])
    against_reference(sx, [], [], [a("s"), a("t", k)], plans + [main])


@harness("C14", reach=["no applicable plan is an error", "events without plans are ignored"])
def no_plan(sx):
    """achievement goals without applicable plan fail; other events are ignored"""
    k, m = n(sx.num("k", 0, 2)), n(sx.num("m", 0, 2))
    kind = sx.choose("kind", ["achieve", "later", "add", "remove", "test"])
    h = sx.choose("h", [a("g", m), a("g", m, m), a("k", m), None])
    plans = []
    if h is not None:
        plans.append(({"achieve": "+!", "later": "+!", "add": "+", "remove": "-", "test": "+?"}[kind], h,
                      sx.choose("c", [("true",), ("false",)]), [("rec", n(1))]))
    goal = a("g", k)
    bel = [a("g", m)] if sx.flag("bel") else []
    main = ("+!", a("s"), ("true",), [(kind, goal), ("rec", n(9))])
    w, ref = against_reference(sx, bel, [], [a("s")], plans + [main])
    applicable = h is not None and h[1] == "g" and len(h) == 3
    if kind in ("achieve", "later") and not applicable:
        sx.check(not w.recs(), "no applicable plan is an error")
    elif not applicable and kind in ("add", "remove"):
        sx.check(len(w.recs()) == 1, "events without plans are ignored")
