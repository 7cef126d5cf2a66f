"""C02: backtracking undoes exactly the bindings made since the choice point."""

from symx.api import harness
from .common import (Refs, term, stack, resolve_scope, same_view, agentspeak, Literal as Lit,
                     LinkedList, Unknown, leaf as cleaf)
from .prog import *
from .prog import lst as L

BOUNDS = {
    "quick": "(a) annotated unification of all pairs of 9 x 9 term shapes (literals with annotations, lists, variables, constants) under 0-2 earlier bindings; (b) conditions A|B, A&B, (A&B)|C, not A, (A|B)&C over 14 leaf forms including the backtracking actions, symbolic constants in [0,2], one earlier binding; consumers: all solutions (for), first solution (if/else, plan body), none (not)",
    "thorough": "as quick with all 14 leaf forms in three-operand conditions and 2 symbolic facts"}
OUTSIDE = ["user-registered Python actions that bind variables after their last yield", ".unbind_all"]
ASSUMPTIONS = []

X, Y, Z = v("X"), v("Y"), v("Z")


# (a) ------------------------------------------------------------------------------

def _shape(sx, name, refs):
    a_, b_ = refs.vars[0], refs.vars[1]
    k = sx.num(name, 0, 2)
    shapes = [k, a_, b_, (a_, k), Lit("f", [a_, k]), Lit("f", [k, b_], [Lit("s", [a_])]),
              Lit("f", [b_, a_], [Lit("s", [k]), Lit("t", [b_])]), LinkedList(a_, (k,)),
              Lit("f", [b_, LinkedList(k, a_)])]
    return sx.choose(name + ".shape", shapes)


def _snapshot(scope, refs):
    out = []
    for x in refs.vars:
        out.append((x in scope, scope.get(x)))
    return out


@harness("C02", reach=["bindings restored", "a solution keeps earlier bindings"])
def annotated_unification(sx):
    """after unify_annotated is exhausted or fails, the bindings are as before"""
    refs = Refs(3)
    scope, st = {}, stack()
    pre = sx.choose("pre", [0, 1, 2])
    for i in range(pre):
        agentspeak.unify(refs.vars[2 - i], sx.choose("prev", [sx.num("pk", 0, 2), Lit("g", [refs.vars[0]]),
                                                              (1, 2)]), scope, st)
    before, n = _snapshot(scope, refs), len(scope)
    l, r = _shape(sx, "l", refs), _shape(sx, "r", refs)
    count = 0
    for _ in agentspeak.unify_annotated(l, r, scope, st):
        count += 1
        now = _snapshot(scope, refs)
        for (had, t), (has, u) in zip(before, now):
            sx.check(not had or (has and t is u), "a solution keeps earlier bindings")
    sx.observe("solutions", count)
    sx.check(_snapshot(scope, refs) == before and len(scope) == n, "bindings restored")
    sx.check(bool(agentspeak.unifies_annotated(l, r, dict(scope), stack())) == (count > 0),
             "same answer again")


# (b) ------------------------------------------------------------------------------

def _leaves(sx):
    k = lambda: n(sx.num("k", 0, 2))        # noqa
    return [
        lambda: ("lit", "p", X),
        lambda: ("act", ".member", X, L(k(), Y)),
        lambda: ("act", ".sort", L(k(), k()), L(X, Y)),
        lambda: ("act", ".length", L(k(), k()), X),
        lambda: ("eq", a("f", X, Y), a("f", k(), k())),
        lambda: ("act", ".range", n(2), Y),
        lambda: ("act", ".findall", Z, ("q", ("lit", "p", Z)), L(X, Y)),
        lambda: ("act", ".concat", L(k()), L(k()), L(X, n(1))),
        lambda: ("act", ".count", ("q", ("lit", "p", Y)), X),
        lambda: ("act", ".substring", ("s", "a"), ("s", "aba"), X),
        lambda: ("act", ".member", L(X, n(1)), L(L(k(), k()), L(Y, n(1)))),
        lambda: ("lit", "r", Y, X),
        lambda: ("eq", X, Y),
        lambda: ("not", ("act", ".member", X, L(k()))),
    ]


def _leaf(sx, idx):
    fs = _leaves(sx)
    return sx.choose("leaf", [fs[i] for i in idx])()


def _condition(sx, form, small):
    al = list(range(14))
    if form == "or":
        return ("or", _leaf(sx, al), _leaf(sx, al))
    if form == "and":
        return ("and", _leaf(sx, al), _leaf(sx, al))
    if form == "and_or":
        return ("or", ("and", _leaf(sx, al), ("cmp", ">", n(sx.num("c", 0, 1)), n(0))), _leaf(sx, small))
    if form == "not_or":
        return ("or", ("and", ("not", _leaf(sx, al)), ("true",)), _leaf(sx, small))
    return ("and", ("or", _leaf(sx, small), _leaf(sx, small)), _leaf(sx, small))


FORMS = ["or", "and", "and_or", "not_or", "or_and"]
SMALL = [0, 1, 2, 6]


def _world(sx):
    bel = [a("p", n(sx.num("p", 0, 2))), a("p", n(2))]
    rules = [(a("r", v("A"), v("B")), ("act", ".member", v("A"), L(v("B"), n(1)))),
             (a("r", n(0), n(0)), ("true",))]
    return bel, rules


def _source(sx, bel, rules, body):
    return "\n".join([show(sx, b) + "." for b in bel] +
                     [show(sx, h) + " :- " + show_q(sx, q) + "." for h, q in rules] +
                     ["!s.", body]) + "\n"


@harness("C02", quick=[{"form": f, "small": SMALL} for f in FORMS],
         thorough=[{"form": f, "small": list(range(14))} for f in FORMS])
def all_solutions(sx, form, small):
    """a for loop sees every solution unpolluted, and nothing stays bound after it"""
    bel, rules = _world(sx)
    q = _condition(sx, form, small)
    pre = sx.flag("pre")
    s0 = {"Y": n(1)} if pre else {}
    src = _source(sx, bel, rules, "+!s <- " + ("Y = 1; " if pre else "") + "for (" + show_q(sx, q) +
                  ") { .rec(X, Y, Z) }; .rec(X, Y, Z, done).")
    ref = Ref(sx, bel, rules)
    try:
        want = [ref_row(ref, s, (X, Y, Z)) for s in ref.solve(q, s0)]
    except RefError:
        sx.assume(False)
    status, w = run_source(sx, src)
    sx.observe("status", status)
    sx.check(status == "ok", "runs")
    got = [row_norm(r) for r in w.recs()]
    sx.check(rows_equal(sx, got[-1:], [ref_row(ref, s0, (X, Y, Z, a("done")))], True),
             "bindings restored after the last solution")
    sx.check(rows_equal(sx, got[:-1], want, False), "each solution is independent of the others")


@harness("C02", quick=[{"form": f, "small": SMALL} for f in FORMS])
def first_solution(sx, form, small):
    """if/else: the else branch sees no binding of the failed condition; a successful
    condition's bindings are those of one solution, and stay"""
    bel, rules = _world(sx)
    q = _condition(sx, form, small)
    src = _source(sx, bel, rules, "+!s <- Z = 1; if (" + show_q(sx, q) +
                  ") { .rec(yes, X, Y, Z) } else { .rec(no, X, Y, Z) }; .rec(X, Y, Z).")
    s0 = {"Z": n(1)}
    ref = Ref(sx, bel, rules)
    try:
        sols = list(ref.solve(q, s0))
    except RefError:
        sx.assume(False)
    status, w = run_source(sx, src)
    sx.observe("status", status)
    sx.check(status == "ok", "runs")
    got = [row_norm(r) for r in w.recs()]
    if sols:
        sx.check(sx.Or(*[rows_equal(sx, got, [ref_row(ref, s, (a("yes"), X, Y, Z)),
                                              ref_row(ref, s, (X, Y, Z))], True) for s in sols]),
                 "then-branch and continuation see one solution")
    else:
        sx.check(rows_equal(sx, got, [ref_row(ref, s0, (a("no"), X, Y, Z)),
                                      ref_row(ref, s0, (X, Y, Z))], True),
                 "a failed condition leaves nothing bound")


@harness("C02")
def negation(sx):
    """not Q as a step leaves every variable as it was"""
    bel, rules = _world(sx)
    q = ("not", _leaf(sx, range(14)))
    src = _source(sx, bel, rules, "+!s <- if (" + show_q(sx, q) + ") { .rec(yes, X, Y, Z) } else { .rec(no, X, Y, Z) }.")
    ref = Ref(sx, bel, rules)
    try:
        sols = list(ref.solve(q, {}))
    except RefError:
        sx.assume(False)
    status, w = run_source(sx, src)
    sx.check(status == "ok", "runs")
    got = [row_norm(r) for r in w.recs()]
    sx.check(rows_equal(sx, got, [ref_row(ref, {}, (a("yes" if sols else "no"), X, Y, Z))], True),
             "not binds nothing")
