"""C13: queries deliver exactly the logical consequences of beliefs and rules."""

from symx.api import harness
from .prog import *

BOUNDS = {"quick": "belief bases of 2 unary and 2 binary facts over symbolic integers in [0,2] (all coincidences and orders), 5 rules (filter, transitive closure, projection, fact); conditions of operator depth 1 over 13 leaf forms with symbolic constants, depth 2 over 5 leaf forms; rule sets of 3 clauses mixing facts, recursion and negation; plan contexts over the same conditions",
          "thorough": "as quick with 3 + 3 facts and depth 2 over all leaf forms"}
OUTSIDE = ["cyclic q/2 facts (the recursive rule does not terminate on them in any Prolog-like engine)",
           "operators applied to two boolean constants (folded at load time, C09)",
           "the order in which facts of one predicate are visited (a set)"]
ASSUMPTIONS = ["sets iterate in insertion order in the symbolic run; only order-independent facts about set iteration are asserted"]


def base(sx, np=2, nq=2):
    """Beliefs p/1, q/2 (acyclic), rules r/1, t/2 (recursive), u/1 (two clauses)."""
    bel = []
    for _ in range(np):
        bel.append(a("p", n(sx.num("p", 0, 2))))
    for _ in range(nq):
        x, y = sx.num("q", 0, 2), sx.num("q", 0, 2)
        sx.assume(sx.lt(x, y))
        bel.append(a("q", n(x), n(y)))
    c = n(sx.num("c", 0, 2))
    rules = [(a("r", v("A")), ("and", ("lit", "p", v("A")), ("cmp", ">", v("A"), c))),
             (a("t", v("A"), v("B")), ("lit", "q", v("A"), v("B"))),
             (a("t", v("A"), v("B")), ("and", ("lit", "q", v("A"), v("C")), ("lit", "t", v("C"), v("B")))),
             (a("u", v("X")), ("lit", "q", v("X"), W)),
             (a("u", n(7)), ("true",))]
    return bel, rules


def leaves(sx):
    X, Y = v("X"), v("Y")
    return [("lit", "p", X), ("lit", "q", X, Y), ("lit", "q", Y, X), ("lit", "r", X), ("lit", "t", X, Y),
            ("lit", "u", Y), ("lit", "p", "num"), ("eq", X, Y), ("eq", "num", X),
            ("cmp", "<", X, Y), ("cmp", "\\==", X, "num"), ("true",), ("false",)]


def leaf_query(sx, which):
    def f(t):
        return n(sx.num("k", 0, 2)) if t == "num" else t
    ls = leaves(sx)
    q = sx.choose("leaf", ls if which is None else [ls[i] for i in which])
    if q[0] == "cmp":
        return ("cmp", q[1], f(q[2]), f(q[3]))
    if q[0] in ("lit",):
        return q[:2] + tuple(f(x) for x in q[2:])
    return (q[0],) + tuple(f(x) for x in q[1:])


def query(sx, d, which=None):
    if d == 0:
        return leaf_query(sx, which)
    k = sx.choose("op", ["leaf", "and", "or", "not"])
    if k == "leaf":
        return leaf_query(sx, which)
    if k == "not":
        return ("not", query(sx, d - 1, which))
    l = query(sx, d - 1, which)
    r = query(sx, sx.choose("rd", [0, 1]) if d > 1 else 0, which)
    # two boolean constants are folded at load time (C09), not queried
    sx.assume(l[0] not in ("true", "false") or r[0] not in ("true", "false"))
    return (k, l, r)


def source(sx, bel, rules, body):
    lines = [show(sx, b) + "." for b in bel]
    lines += [show(sx, h) + " :- " + show_q(sx, q) + "." for h, q in rules]
    lines += ["!s.", body]
    return "\n".join(lines) + "\n"


def reference(ref, q, terms, s=None):
    """(rows, error)"""
    try:
        return [ref_row(ref, s1, terms) for s1 in ref.solve(q, s or {})], False
    except RefError:
        return None, True


def compare_for(sx, src, ref, q, ordered=False):
    X, Y = v("X"), v("Y")
    want, err = reference(ref, q, (X, Y))
    status, w = run_source(sx, src)
    sx.observe("status", status)
    if err:
        sx.check(status == "error", "ill-typed query is an error")
        return
    sx.check(status == "ok", "well-typed query succeeds")
    got = [row_norm(r) for r in w.recs()]
    sx.check(rows_equal(sx, got[:-1], want, ordered), "exactly the reference solutions")
    sx.check(rows_equal(sx, got[-1:], [ref_row(ref, {}, (X, Y, a("done")))], True), "nothing stays bound")


SMALL = [1, 3, 6, 7, 9]     # q(X, Y), r(X), p(k), X = Y, X < Y


@harness("C13", quick=[{"d": 1, "which": None, "np": 2, "nq": 2}, {"d": 2, "which": SMALL, "np": 1, "nq": 1}],
         thorough=[{"d": 1, "which": None, "np": 3, "nq": 3}, {"d": 2, "which": SMALL, "np": 2, "nq": 2},
                   {"d": 2, "which": None, "np": 1, "nq": 1}],
         reach=["exactly the reference solutions", "ill-typed query is an error"])
def solutions(sx, d, which, np, nq):
    """for (Q) { .rec(X, Y) }: the recorded solutions are the reference solutions"""
    bel, rules = base(sx, np, nq)
    q = query(sx, d, which)
    src = source(sx, bel, rules, "+!s <- for (" + show_q(sx, q) + ") { .rec(X, Y) }; .rec(X, Y, done).")
    compare_for(sx, src, Ref(sx, bel, rules), q)


@harness("C13", quick=[{"which": None}])
def contexts(sx, which):
    """a plan runs with one of the context's solutions, or not at all"""
    bel, rules = base(sx, 2, 1)
    q = query(sx, 1, [1, 2, 3, 4, 5, 6, 8, 9])
    src = source(sx, bel, rules, "+!s : " + show_q(sx, q) + " <- .rec(X, Y).\n+!s <- .rec(none).")
    ref = Ref(sx, bel, rules)
    want, err = reference(ref, q, (v("X"), v("Y")))
    sx.assume(not err)
    status, w = run_source(sx, src)
    sx.observe("status", status)
    sx.check(status == "ok", "well-typed context")
    got = [row_norm(r) for r in w.recs()]
    sx.check(len(got) == 1, "exactly one plan runs")
    if not want:
        sx.check(rows_equal(sx, got, [ref_row(ref, {}, (a("none"),))], True), "falls through without solution")
    else:
        sx.check(sx.Or(*[rows_equal(sx, got, [r], True) for r in want]), "runs with a solution of the context")


@harness("C13")
def clause_order(sx):
    """the fact, then the clauses in program order, each with private variables"""
    k1, k2, k3 = [n(sx.num("k", 0, 3)) for _ in range(3)]
    X, Y, A, B = v("X"), v("Y"), v("A"), v("B")
    bodies = [("true",), ("eq", A, k1), ("lit", "w", A, B), ("or", ("eq", A, k1), ("eq", A, k2)),
              ("and", ("lit", "w", B, A), ("eq", X, B)), ("not", ("lit", "w", A, A))]
    heads = [a("g", A, B), a("g", k1, A), a("g", X, Y), a("g", A, A)]
    rules = [(a("w", k1, k2), ("true",)), (a("w", k2, k3), ("true",))]
    for i in range(2):
        rules.append((sx.choose("head", heads), sx.choose("body", bodies)))
    facts = [a("g", k3, k1)] if sx.flag("fact") else []
    goal = sx.choose("goal", [("lit", "g", X, Y), ("lit", "g", X, X), ("lit", "g", k2, Y),
                              ("lit", "g", lst(X), Y)])
    lines = [show(sx, f) + "." for f in facts]
    lines += [show(sx, h) + " :- " + show_q(sx, q) + "." for h, q in rules]
    src = "\n".join(lines) + "\n!s.\n+!s <- for (" + show_q(sx, goal) + ") { .rec(X, Y) }; .rec(X, Y, done).\n"
    compare_for(sx, src, Ref(sx, facts, rules), goal, ordered=True)


@harness("C13")
def terms(sx):
    """facts with structured arguments (literals, plain and linked lists, strings, booleans)"""
    X, Y = v("X"), v("Y")
    k, m = n(sx.num("k", 0, 2)), n(sx.num("m", 0, 2))
    shapes = [k, a("f", k), a("f", m, k), lst(k, m), lst(), ("c", m, lst(k)), ("s", "x"), ("b", True),
              a("x"), a("f", lst(m))]
    pats = shapes + [X, a("f", X), lst(X, Y), ("c", X, Y), W, lst(X), a("f", X, Y)]
    bel = [a("h", sx.choose("b1", shapes)), a("h", sx.choose("b2", [lst(m, m), k]))]
    goal = ("lit", "h", sx.choose("pat", pats))
    src = source(sx, bel, [], "+!s <- for (" + show_q(sx, goal) + ") { .rec(X, Y) }; .rec(X, Y, done).")
    compare_for(sx, src, Ref(sx, bel, []), goal)


@harness("C13", cases=[{"arity": k} for k in (0, 1, 2)])
def repeated(sx, arity):
    """one rule used again and again while the beliefs change: every use starts afresh"""
    X, Y, A, B = v("X"), v("Y"), v("A"), v("B")
    bel = [a("p", n(sx.num("p", 0, 1))), a("q", n(sx.num("q", 0, 1)))]
    head = a("r", *[A, B][:arity])
    body = sx.choose("body", [("and", ("lit", "p", A), ("lit", "q", A)), ("and", ("lit", "p", A), ("not", ("lit", "q", A))),
                              ("and", ("lit", "p", B), ("or", ("lit", "q", A), ("eq", A, B))), ("and", ("lit", "p", A), ("cmp", ">", A, n(0)))])
    use = ("lit", "r") + (X, Y)[:arity]

    def ask(i):
        k = sx.choose("how", ["for", "if", "sub"]) if i else "for"
        if k == "sub":
            return ("achieve", a("ask"))
        if k == "for":
            return ("for", use, [("rec", n(i)) + (X, Y)[:arity]])
        return ("if", use, [("rec", a("yes"))], [("rec", a("no"))])

    def change():
        k = sx.choose("c", ["+p", "-p", "+q", "-q"])
        return ("add" if k[0] == "+" else "remove", a(k[1], n(sx.num("c", 0, 1))))
    steps = [ask(0), change(), change(), ask(1)]
    plans = [("+!", a("ask"), use, [("rec", a("yes"))]), ("+!", a("ask"), ("true",), [("rec", a("no"))]),
             ("+!", a("s"), sx.choose("guard", [("true",), use]), [("rec", a("start"))] + steps), ("+!", a("s"), ("true",), steps)]
    if arity and plans[2][2] == use:
        # the guard binds the plan's variables to one of the solutions
        plans[2] = plans[2][:2] + (("not", ("not", use)),) + plans[2][3:]
    src = show_program(sx, bel, [(head, body)], [a("s")], plans)
    ref = RefAgent(sx, bel, [(head, body)], plans)
    want = ref.run([a("s")])
    status, w = run_source(sx, src)
    sx.check(status == want == "ok", "well-typed query succeeds")
    # facts of one predicate are visited in any order
    sx.check(rows_equal(sx, [row_norm(r) for r in w.recs()], [flat_row(r) for r in ref.out], False), "exactly the reference solutions")
