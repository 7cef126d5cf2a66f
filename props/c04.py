"""C04: snapshots (freeze, grounded, is_ground)."""

from symx.api import harness
from .common import *
from .prog import World
from agentspeak import AslError, BinaryExpr, UnaryExpr, BinaryOp, UnaryOp

BOUNDS = {
    "quick": "terms of depth 2 (literals with annotations, plain and linked lists, expressions +, *, unary -, <) over symbolic numbers, strings, booleans, 3 variables and wildcards; scopes binding any of the variables to numbers, to each other (chains), to literals, lists or expressions over later variables; goal arguments, belief additions, .findall and .send content in running agents",
    "thorough": "as quick with depth 3 and a second term sharing the memo"}
OUTSIDE = ["cyclic bindings"]
ASSUMPTIONS = []


class IllTyped(Exception):
    pass


def ref(sx, t, scope, memo):
    """Reference snapshot as a view tree; unbound variables numbered in memo."""
    while is_var(t) and t in scope:
        t = scope[t]
    if is_wild(t):
        return ("wild",)
    if is_var(t):
        return ("var", memo.setdefault(t, len(memo)))
    if isinstance(t, UnaryExpr):
        x = ref(sx, t.operand, scope, memo)
        if t.unary_op.lexeme == "not":
            if x[0] != "bool":
                raise IllTyped()
            return ("bool", not x[1])
        if x[0] != "num":
            raise IllTyped()
        return ("num", -x[1])
    if isinstance(t, BinaryExpr):
        x, y = ref(sx, t.left, scope, memo), ref(sx, t.right, scope, memo)
        if t.binary_op.lexeme == "<" and "num" not in (x[0], y[0]) and not {"var", "wild"} & {x[0], y[0]}:
            sx.assume(False)        # order of other terms: C05
        if x[0] != "num" or y[0] != "num":
            raise IllTyped()
        op = t.binary_op.lexeme
        if op == "<":
            return ("bool", sx.truth(sx.lt(x[1], y[1])))
        return ("num", x[1] + y[1] if op == "+" else x[1] * y[1])
    if isinstance(t, Literal):
        return ("lit", t.functor, tuple(ref(sx, x, scope, memo) for x in t.args),
                tuple(ref(sx, x, scope, memo) for x in t.annots))
    w = view(t)
    if w[0] == "cons":
        return ("cons", ref(sx, w[1], scope, memo), ref(sx, w[2], scope, memo))
    return w


def tree(t, names):
    """The same tree for a snapshot (which must contain no expression)."""
    if is_wild(t):
        return ("wild",)
    if is_var(t):
        return ("var", names.setdefault(t, len(names)))
    if isinstance(t, (UnaryExpr, BinaryExpr)):
        return ("expr",)
    if isinstance(t, Literal):
        return ("lit", t.functor, tuple(tree(x, names) for x in t.args), tuple(tree(x, names) for x in t.annots))
    w = view(t)
    if w[0] == "cons":
        return ("cons", tree(w[1], names), tree(w[2], names))
    return w


def bij(a, b, m, n):
    """The variable numbers of a and b correspond one to one."""
    if a[0] == "var" and b[0] == "var":
        return m.setdefault(a[1], b[1]) == b[1] and n.setdefault(b[1], a[1]) == a[1]
    if a[0] != b[0] or len(a) != len(b):
        return True
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if not x or not y:
                continue
            if isinstance(x[0], tuple):
                if not all(bij(p, q, m, n) for p, q in zip(x, y)):
                    return False
            elif not bij(x, y, m, n):
                return False
    return True


def same(sx, a, b):
    if a[0] != b[0]:
        return False
    if a[0] in ("wild", "nil", "var"):
        return True
    if a[0] in ("num", "str", "bool"):
        return sx.eq(a[1], b[1])
    if a[0] == "lit":
        if len(a[2]) != len(b[2]) or len(a[3]) != len(b[3]):
            return False
        return sx.And(sx.eq(a[1], b[1]), *([same(sx, x, y) for x, y in zip(a[2], b[2])] +
                                           [sx.Or(*[same(sx, x, y) for y in b[3]]) for x in a[3]] +
                                           [sx.Or(*[same(sx, x, y) for y in a[3]]) for x in b[3]]))
    return sx.And(same(sx, a[1], b[1]), same(sx, a[2], b[2]))


def has(tr, k):
    return tr[0] in k or any(has(x, k) for x in tr[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)) \
        or any(has(y, k) for x in tr[1:] if isinstance(x, tuple) and x and isinstance(x[0], tuple) for y in x)


def gen(sx, name, d, refs):
    leaves = ["num", "var", "wild", "str", "bool"] if d < 2 else ["num", "var"]
    if d == 0:
        k = sx.choose(name, leaves)
    else:
        k = sx.choose(name, leaves + ["lit", "annot", "tuple", "ll", "add", "neg", "lt"])
    if k == "num":
        return sx.num(name, -2, 3)
    if k == "var":
        return sx.choose(name + ".v", refs.vars)
    if k == "wild":
        return Wildcard()
    if k == "str":
        return sx.pool(name, STRINGS)
    if k == "bool":
        return sx.flag(name)
    if k == "lit":
        return Literal(sx.pool(name, FUNCTORS), [gen(sx, name, d - 1, refs), sx.choose(name + ".w", refs.vars)])
    if k == "annot":
        return Literal("f", [sx.choose(name + ".w", refs.vars)], [Literal("s", [gen(sx, name, d - 1, refs)])])
    if k == "tuple":
        return (gen(sx, name, d - 1, refs), sx.choose(name + ".w", refs.vars))
    if k == "ll":
        return LinkedList(gen(sx, name, d - 1, refs), sx.choose(name + ".t", [(), refs.vars[0], refs.vars[2]]))
    num = lambda: sx.choose(name + ".o", refs.vars[:2] + [sx.num(name, -2, 3)])   # noqa
    if k == "add":
        return BinaryExpr(sx.choose(name + ".op", [BinaryOp.op_add.value, BinaryOp.op_mul.value]), num(), num())
    if k == "neg":
        return UnaryExpr(UnaryOp.op_neg.value, num())
    return BinaryExpr(BinaryOp.op_lt.value, num(), num())


def scope_of(sx, refs):
    """Acyclic: a variable may only be bound to terms over later variables."""
    scope = {}
    for i, v in enumerate(refs.vars):
        later = refs.vars[i + 1:]
        opts = [None, sx.num("b", 0, 3)]
        opts += [("x",), ()] if i == 2 else [later[0], Literal("g", [later[-1]]), LinkedList(1, later[-1]),
                                            BinaryExpr(BinaryOp.op_add.value, later[-1], 1)]
        t = sx.choose("bind%d" % i, opts)
        if t is not None:
            scope[v] = t
    return scope


@harness("C04", quick=[{"d": 1, "two": False}, {"d": 1, "two": True}],
         thorough=[{"d": 2, "two": False}, {"d": 2, "two": True}],
         reach=["snapshot is the substituted term", "ground form given exactly for ground terms"])
def snapshot(sx, d, two):
    """freeze / grounded / is_ground against substitution"""
    refs = Refs(3)
    t = gen(sx, "t", d, refs)
    if two:
        t = Literal("two", [t, gen(sx, "u", 0, refs)])
    scope = scope_of(sx, refs)
    before = dict(scope)
    m = {}
    try:
        want = ref(sx, t, scope, m)
    except IllTyped:
        for f in (lambda: agentspeak.freeze(t, scope, {}), lambda: agentspeak.grounded(t, scope)):
            try:
                f()
            except AslError:
                pass
            else:
                sx.fail("ill-typed expressions are errors")
        return
    memo = {}
    fr = agentspeak.freeze(t, scope, memo)
    got = tree(fr, {})
    sx.check(sx.And(same(sx, want, got), bij(want, got, {}, {})), "snapshot is the substituted term")
    names = {}
    tree(fr, names)
    sx.check(not any(v in refs.vars for v in names), "unbound variables are replaced by fresh ones")
    sx.check(scope == before and all(scope[v] is before[v] for v in before), "taking a snapshot binds nothing")
    again = agentspeak.freeze(t, scope, memo)
    n2 = {}
    tree(again, n2)
    sx.check(set(n2) == set(names), "one memo: one replacement")
    # later bindings
    st = stack()
    for v in refs.vars:
        if v not in scope:
            agentspeak.unify(v, 9, scope, st)
    late = tree(fr, {})
    sx.check(sx.And(same(sx, want, late), bij(want, late, {}, {})), "later bindings do not change the snapshot")
    # ground
    ground = not has(want, ("var", "wild"))
    sx.check(bool(agentspeak.is_ground(t, before)) == ground, "ground exactly without unbound variables")
    try:
        g = agentspeak.grounded(t, before)
    except AslError:
        sx.check(not ground, "ground form given exactly for ground terms")
    else:
        sx.check(ground, "ground form given exactly for ground terms")
        sx.check(same(sx, want, tree(g, {})), "ground form equals the snapshot")


PROGRAMS = {
    # a variable is unbound when the goal is called, its copy is bound in the subgoal
    "goal": ("+!s <- %s!t(%s); .rec(X, Y).\n+!t(A) <- .rec(A).\n", None),
    "later": ("+!s <- %s!!t(%s)LATER.\n+!t(A) <- .rec(A).\n", None),
    "findall": ("p(1). p(2).\n+!s <- %sfor (p(Z)) { .findall(%s, p(_), L); .rec(L) }.\n", None),
    "add": ("+!s <- %s+b(%s); for (b(A)) { .rec(A) }.\n", None),
}


@harness("C04", quick=[{"kind": k} for k in ("goal", "later", "add")])
def interpreter(sx, kind):
    """the values delivered by goals and belief additions are those at the time of the call"""
    x, y = sx.num("x", 0, 3), sx.num("y", 0, 3)
    N = sx.numeral
    bx = sx.choose("bx", ["", "X = %s; " % N(x), "X = Y; ", "X = [%s|Y]; " % N(x), "X = g(Y); "])
    by = sx.choose("by", ["", "Y = %s; " % N(y)])
    t = sx.choose("t", ["X", "f(X, Y)", "[X, Y]", "[Y|X]", "X + %s" % N(y), "f(X)[s(Y)]", "f(Y, X, X)", "_"])
    bound_x, bound_y = bx != "", by != ""
    later = "; ".join([""] + (["X = 7"] if not bound_x else []) + (["Y = 8"] if not bound_y else []))
    src = "!s.\n" + PROGRAMS[kind][0] % (bx + by, t)
    src = src.replace("LATER", later)
    w = World(sx)
    w.build(src)
    status = w.run()
    sx.observe("status", status)
    # reference
    X, Y = Var(), Var()
    scope = {}
    if bound_y:
        scope[Y] = y
    if bound_x:
        scope[X] = {"X = %s; " % N(x): x, "X = Y; ": Y, "X = [%s|Y]; " % N(x): LinkedList(x, Y), "X = g(Y); ": Literal("g", [Y])}[bx]
    term_ = {"X": X, "f(X, Y)": Literal("f", [X, Y]), "[X, Y]": (X, Y), "[Y|X]": LinkedList(Y, X),
             "X + %s" % N(y): BinaryExpr(BinaryOp.op_add.value, X, y), "f(X)[s(Y)]": Literal("f", [X], [Literal("s", [Y])]),
             "f(Y, X, X)": Literal("f", [Y, X, X]), "_": Wildcard()}[t]
    try:
        want = ref(sx, term_, scope, {})
    except IllTyped:
        sx.check(status == "error", "ill-typed arguments are errors")
        return
    if kind == "add" and has(want, ("var", "wild")):
        sx.check(status == "error", "only ground beliefs are added")
        return
    sx.check(status == "ok", "runs")
    rows = [r for r in w.recs() if len(r) == 1]
    sx.check(len(rows) == 1, "one delivery")
    got = tree(rows[0][0], {})
    if t == "_":
        sx.check(got[0] in ("wild", "var"), "value at the time of the call")
    else:
        sx.check(sx.And(same(sx, want, got), bij(want, got, {}, {})), "value at the time of the call")
