"""C03: annotated matching."""

import itertools

from symx.api import harness
from .common import *

BOUNDS = {
    "quick": "literal pairs with 0-2 annotations on the left and 0-3 on the right, annotations drawn from 5 ground shapes with symbolic numbers in [0,2] and symbolic names (all coincidences), arguments num/var; open annotations (one variable annotation argument) with one candidate each; beliefs and plan heads through the interpreter with 0-2 annotations",
    "thorough": "as quick with 3 annotations on the left and 4 on the right"}
OUTSIDE = ["several required annotations containing variables that compete for the same candidates (the library matches them greedily, in set order; the statement is claimed for ground requirements and for a single open one)"]
ASSUMPTIONS = ["set iteration order is insertion order in the symbolic run and PYTHONHASHSEED=0 order in the replay; nothing asserted depends on it"]


def annot(sx, name):
    k = sx.choose(name + ".s", ["src", "num", "two"])
    if k == "src":
        return Literal("source", [Literal(sx.pool(name, ("a", "b")))])
    if k == "num":
        return Literal("source", [sx.num(name, 0, 1)])
    return Literal("t", [sx.num(name, 0, 1), 1])


def same_annot(sx, p, q):
    return same_view(sx, resolve_scope(p, {}, {}), resolve_scope(q, {}, {}))


@harness("C03", quick=[{"nl": 2, "nr": 2}, {"nl": 1, "nr": 3}], thorough=[{"nl": 3, "nr": 3}, {"nl": 2, "nr": 4}],
         reach=["ground requirements: subset"])
def ground(sx, nl, nr):
    """ground annotations: matches exactly when functor/args agree and left is a subset"""
    la = [annot(sx, "l") for _ in range(sx.choose("nl", list(range(nl + 1))))]
    ra = [annot(sx, "r") for _ in range(sx.choose("nr", list(range(nr + 1))))]
    v = Var()
    x, y = sx.num("x", 0, 1), sx.num("y", 0, 1)
    larg = sx.choose("larg", [x, v])
    f1, f2 = sx.pool("f", ("p", "q")), sx.pool("f", ("p", "q"))
    l, r = Literal(f1, [larg], la), Literal(f2, [y], ra)
    base = sx.eq(f1, f2) if larg is v else sx.And(sx.eq(f1, f2), sx.eq(x, y))
    subset = sx.And(*[sx.Or(*[same_annot(sx, p, q) for q in ra]) for p in la])
    want = sx.And(base, subset)
    scope, st = {}, stack()
    count = 0
    for _ in agentspeak.unify_annotated(l, r, scope, st):
        count += 1
        if larg is v:
            sx.check(sx.And(v in scope, sx.eq(scope.get(v), y)), "argument bound")
    sx.observe("count", count)
    sx.check(sx.Iff(count == 1, want), "ground requirements: subset")
    sx.check(count <= 1, "at most one match")
    sx.check(not scope, "no binding left")
    sx.check(sx.Iff(bool(agentspeak.unifies_annotated(l, r)), want), "unifies_annotated agrees")
    if not la:
        sx.check(sx.Iff(bool(agentspeak.unifies(l, r)), base), "plain unification ignores annotations")


@harness("C03", quick=[{"nr": 2}], thorough=[{"nr": 3}], reach=["open requirement"])
def one_open(sx, nr):
    """one required annotation with a variable plus one ground one: matches exactly when
    distinct candidates exist, and binds the variable to a matching value"""
    v = Var()
    k = sx.num("k", 0, 1)
    open_ = Literal("source", [v])
    extra = [Literal("t", [k])] if sx.flag("extra") else []
    ra = []
    for _ in range(sx.choose("nr", list(range(nr + 1)))):
        ra.append(sx.choose("rs", [Literal("source", [sx.num("s", 0, 1)]), Literal("t", [sx.num("t", 0, 1)])]))
    arg = sx.choose("arg", [v, 0, Wildcard()])
    y = sx.num("y", 0, 1)
    l, r = Literal("p", [arg], [open_] + extra), Literal("p", [y], ra)
    ok_open = sx.Or(*[True if arg is not v else sx.eq(q.args[0], y) for q in ra if q.functor == "source"])
    ok_extra = sx.Or(*[sx.eq(q.args[0], k) for q in ra if q.functor == "t"]) if extra else True
    ok_arg = sx.eq(y, 0) if isinstance(arg, int) else True
    want = sx.And(ok_arg, ok_open, ok_extra)
    scope, st = {}, stack()
    count = 0
    for _ in agentspeak.unify_annotated(l, r, scope, st):
        count += 1
        if arg is v:
            good = sx.eq(agentspeak.deref(v, scope), y)
        else:
            good = sx.Or(*[sx.eq(agentspeak.deref(v, scope), q.args[0]) for q in ra if q.functor == "source"])
        sx.check(good, "bound to a matching annotation")
    sx.observe("count", count)
    sx.check(sx.Iff(count == 1, want), "open requirement")
    sx.check(not scope, "no binding left")


@harness("C03")
def distinct(sx):
    """two required annotations need two distinct candidates"""
    v, w = Var(), Var()
    l = Literal("p", [], [Literal("s", [v]), Literal("s", [w, 1])] if sx.flag("arity") else
                [Literal("s", [v]), Literal("s", [w])])
    same_arity = all(len(x.args) == 1 for x in l.annots)
    ra = []
    for _ in range(sx.choose("nr", [0, 1, 2])):
        ra.append(sx.choose("rs", [Literal("s", [sx.num("s", 0, 1)]), Literal("s", [sx.num("s", 0, 1), 1])]))
    r = Literal("p", [], ra)
    n1 = [x for x in r.annots if len(x.args) == 1]
    n2 = [x for x in r.annots if len(x.args) == 2]
    want = len(n1) >= 2 if same_arity else (len(n1) >= 1 and len(n2) >= 1)
    got = bool(agentspeak.unifies_annotated(l, r))
    sx.observe("got", got)
    sx.check(got == want, "distinct candidates")


@harness("C03", reach=["plan with annotated head", "belief query"])
def interpreter(sx):
    """annotated beliefs, queries and plan heads in a running agent"""
    from .prog import World
    w = World(sx)
    x, y, z = [sx.num("a", 0, 1) for _ in range(3)]
    N = sx.numeral
    bel = {"none": "p(1)", "one": "p(1)[s(%s)]" % N(x), "two": "p(1)[s(%s), t(%s)]" % (N(x), N(y))}
    b = sx.choose("bel", sorted(bel))
    req = {"none": "p(A)", "s": "p(A)[s(%s)]" % N(z), "t": "p(A)[t(%s)]" % N(z), "both": "p(A)[t(%s), s(%s)]" % (N(z), N(z)),
           "var": "p(A)[s(B)]"}
    q = sx.choose("req", sorted(req))
    has_s = sx.eq(x, z) if b != "none" else False
    has_t = sx.eq(y, z) if b == "two" else False
    want = {"none": True, "s": has_s, "t": has_t, "both": sx.And(has_s, has_t), "var": b != "none"}[q]
    src = """+%s <- .rec(plan).
+p(_) <- .rec(other).
!go.
+!go <- +%s; if (%s) { .rec(yes) } else { .rec(no) }.
""" % (req[q], bel[b], req[q])
    w.build(src)
    w.run()
    got = [r[0].functor for r in w.recs()]
    sx.observe("got", got)
    sx.check(len(got) == 2, "both report")
    sx.check(sx.Iff(got[0] == "plan", want), "plan with annotated head")
    sx.check(sx.Iff(got[1] == "yes", want), "belief query")
