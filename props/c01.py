"""C01: unification is exact agreement of terms."""

from symx.api import harness
from .common import *

BOUNDS = {
    "quick": "pairs of terms: depth (1,0), (0,1) over all leaf kinds; depth (1,1) over numbers (int against float), booleans, strings, atoms, 2 shared variables and wildcards; depth (2,2) with nested literals/lists over numbers and variables; three-argument literals with repeated variables; one or two earlier unifications (variable chains included); numbers integer-valued in [-3,3] of both kinds, names/strings symbolic over pools of 6/5, <= 2 arguments",
    "thorough": "as quick with depth (1,1) over all 8 leaf kinds, depth (3,1), (1,3) over numbers and variables"}
OUTSIDE = ["NaN and infinities", "terms where a variable occurs inside its own binding (no occurs check)",
           "unevaluated arithmetic inside terms (see C25)"]
ASSUMPTIONS = ["Python int/float comparison is exact (modelled as exact integers/reals)"]

ALL = ["int", "float", "bool", "str", "atom", "var", "wild"]


def _unify_case(sx, l, r, vars_, scope=None, st=None, ref=None):
    scope = {} if scope is None else scope
    st = stack() if st is None else st
    before = dict(scope)
    ref = ref or RefUnifier(sx)
    try:
        want = ref.unify(l, r)
    except Unknown:
        sx.assume(False)
    got = agentspeak.unify(l, r, scope, st)
    sx.observe("got", bool(got))
    sx.check(sx.Iff(bool(got), want), "unifiable exactly when the terms agree")
    if got:
        n1, n2 = {}, {}
        sx.check(sx.And(*[same_view(sx, resolve_scope(v, scope, n1), ref.resolve(v, n2))
                          for v in vars_]), "bindings are the most general unifier")
        sx.check(set(scope) <= set(vars_), "only variables of the terms are bound")
    sx.check(all(scope.get(v) is t for v, t in before.items()), "earlier bindings are kept")
    scope2, st2 = dict(before), stack()
    back = agentspeak.unify(r, l, scope2, st2)
    sx.check(sx.Iff(bool(back), want), "symmetric")
    if back:
        n1, n2 = {}, {}
        sx.check(sx.And(*[same_view(sx, resolve_scope(v, scope2, n1), ref.resolve(v, n2))
                          for v in vars_]), "bindings are the most general unifier")
    if not before:
        sx.check(sx.Iff(bool(agentspeak.unifies(l, r)), want), "unifies() agrees")
    return got


@harness("C01", quick=[{"ld": 1, "rd": 0, "leaves": ALL}, {"ld": 0, "rd": 1, "leaves": ALL},
                       {"ld": 1, "rd": 1, "leaves": None}],
         thorough=[{"ld": 1, "rd": 1, "leaves": ALL}],
         reach=["unifiable exactly when the terms agree", "bindings are the most general unifier"])
def unify_exact(sx, ld, rd, leaves):
    """unify(l, r) against textbook unification"""
    refs = Refs(2)
    comps = ["lit", "tuple", "ll"]
    l = term(sx, "l", ld, leaves or ["int", "bool", "str", "atom", "var"], comps, refs)
    r = term(sx, "r", rd, leaves or ["float", "bool", "str", "atom", "var", "wild"], comps, refs)
    _unify_case(sx, l, r, refs.vars)


@harness("C01", quick=[{"ld": 2, "rd": 1}, {"ld": 1, "rd": 2}, {"ld": 2, "rd": 2}],
         thorough=[{"ld": 2, "rd": 2}, {"ld": 3, "rd": 1}, {"ld": 1, "rd": 3}])
def unify_nested(sx, ld, rd):
    """nested structures, single-argument inner terms, lists in lists"""
    refs = Refs(2)

    def t(name, d):
        if d == 0:
            return leaf(sx, name, ["int", "var"], refs)
        c = sx.choose(name + ".c", ["leaf", "lit", "tuple", "ll", "lit2"])
        if c == "leaf":
            return leaf(sx, name, ["int", "var"], refs)
        if c == "lit":
            return Literal(sx.pool(name + ".f", FUNCTORS), [t(name, d - 1)])
        if c == "lit2":
            return Literal("f", [t(name, d - 1), refs.vars[0]])
        if c == "tuple":
            return (t(name, d - 1),)
        return LinkedList(t(name, d - 1), sx.choose(name + ".t", [(), (1,), refs.vars[1]]))
    _unify_case(sx, t("l", ld), t("r", rd), refs.vars)


@harness("C01")
def unify_repeated(sx):
    """f(x1,x2,x3) against f(y1,y2,y3) (or lists) with three shared variables"""
    refs = Refs(3)
    n = 3
    l = [leaf(sx, "l", ["int", "var"], refs) for _ in range(n)]
    r = [leaf(sx, "r", ["int", "var"], refs) for _ in range(n)]
    k = sx.choose("k", ["lit", "tuple", "chain"])
    if k == "lit":
        a, b = Literal("f", l), Literal("f", r)
    elif k == "tuple":
        a, b = tuple(l), tuple(r)
    else:
        a, b = LinkedList(l[0], LinkedList(l[1], l[2])), LinkedList(r[0], LinkedList(r[1], r[2]))
    _unify_case(sx, a, b, refs.vars)


@harness("C01", cases=[{"k": 1}, {"k": 2}],
         reach=["earlier bindings are kept"])
def unify_bound(sx, k):
    """unification after earlier unifications made bindings (chains, structures)"""
    refs = Refs(3)
    scope, st = {}, stack()
    ref = RefUnifier(sx)
    full = ["int", "var", "lit", "ll"] if k == 1 else ["int", "var", "lit1"]
    small = ["var", "lit1"]

    def t(name, kinds):
        c = sx.choose(name, kinds)
        if c in ("int", "var", "str"):
            return leaf(sx, name, [c], refs)
        if c == "lit":
            return Literal(sx.pool(name + ".f", FUNCTORS), [leaf(sx, name, ["int", "var"], refs)
                                                           for _ in range(2)])
        if c == "lit1":
            return Literal("f", [leaf(sx, name, ["int", "var"], refs)])
        return LinkedList(leaf(sx, name, ["int", "var"], refs), sx.choose(name + ".t", [(), refs.vars[2]]))
    for i in range(k):
        _l, _r = sx.choose("pre.l", refs.vars), t("pre.r", full if k == 1 else ["int", "var"])
        try:
            w = ref.unify(_l, _r)
        except Unknown:
            sx.assume(False)
        g = agentspeak.unify(_l, _r, scope, st)
        sx.check(sx.Iff(bool(g), w), "unifiable exactly when the terms agree")
        if not g:
            sx.assume(False)
    _unify_case(sx, t("l", small), t("r", full), refs.vars, scope, st, ref)


@harness("C01")
def wildcard_binds_nothing(sx):
    """a wildcard agrees with every term and leaves no binding"""
    refs = Refs(2)
    w = Wildcard()
    t = term(sx, "t", 1, ALL, ["lit", "tuple", "ll"], refs)
    side = sx.flag("side")
    nest = sx.choose("nest", ["top", "lit", "list"])
    a, b = w, t
    if nest == "lit":
        a, b = Literal("f", [w, 1]), Literal("f", [t, 1])
    elif nest == "list":
        a, b = (w, 1), LinkedList(t, (1,))
    if side:
        a, b = b, a
    scope, st = {}, stack()
    sx.check(bool(agentspeak.unify(a, b, scope, st)), "wildcard agrees with everything")
    sx.check(not scope, "wildcard binds nothing")
