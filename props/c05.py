"""C05: equality, hashing and ordering of terms are consistent."""

from symx.api import harness
from .common import *
from agentspeak import AslError, BinaryExpr, BinaryOp

BOUNDS = {
    "quick": "equality and hashing: pairs of ground terms of depth (1,1) over ints, decimals (quarters), booleans, strings, atoms, literals with 0-2 literal annotations, plain and linked lists; depth (2,1) over numbers and booleans. Order: pairs and triples of comparable terms (numbers of both kinds, strings, atoms, lists of lengths 0-2 plain/linked, literals with 1-2 arguments, nested one level), and all pairs of incomparable kinds",
    "thorough": "as quick with depth (2,2) and nested triples"}
OUTSIDE = ["NaN", "annotations that are bare numbers or booleans", "the order between literals that differ only in annotations (the order looks at functor and arguments)"]
ASSUMPTIONS = ["hash values are compared structurally in the symbolic run (equal ingredients hash equal) and numerically in the replay"]


def ev(op, x, y):
    return BinaryExpr(op.value, x, y).evaluate({})


def rview(t):
    """View with annotations; lists as cons cells."""
    w = view(t)
    if w[0] == "lit":
        return ("lit", w[1], tuple(rview(x) for x in w[2]), tuple(rview(x) for x in t.annots))
    if w[0] == "cons":
        return ("cons", rview(w[1]), rview(w[2]))
    return w


def req(sx, a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "nil":
        return True
    if a[0] in ("num", "str", "bool"):
        return sx.eq(a[1], b[1])
    if a[0] == "cons":
        return sx.And(req(sx, a[1], b[1]), req(sx, a[2], b[2]))
    if len(a[2]) != len(b[2]):
        return False
    return sx.And(sx.eq(a[1], b[1]), *([req(sx, x, y) for x, y in zip(a[2], b[2])] +
                                       [sx.Or(*[req(sx, x, y) for y in b[3]]) for x in a[3]] +
                                       [sx.Or(*[req(sx, x, y) for y in a[3]]) for x in b[3]]))


def gterm(sx, name, d, kinds, annots=True):
    opts = list(kinds)
    if d:
        opts += ["lit", "tuple", "ll", "ann"] if annots else ["lit", "tuple", "ll"]
    k = sx.choose(name, opts)
    if k == "lit":
        return Literal(sx.pool(name + ".f", FUNCTORS), [gterm(sx, name, d - 1, kinds, annots)
                                                       for _ in range(sx.choose(name + ".n", [1, 2]))])
    if k == "ann":
        n_ = sx.choose(name + ".n", [1, 2])
        return Literal("f", [], [Literal(sx.choose(name + ".af", ["s", "t"]), [sx.num(name, 0, 1)]) for _ in range(n_)])
    if k == "tuple":
        return tuple(gterm(sx, name, d - 1, kinds, annots) for _ in range(sx.choose(name + ".n", [0, 1, 2])))
    if k == "ll":
        h = gterm(sx, name, d - 1, kinds, annots)
        t = sx.choose(name + ".t", ["nil", "tuple", "ll"])
        if t == "nil":
            return LinkedList(h, ())
        x = gterm(sx, name, 0, kinds, annots)
        return LinkedList(h, (x,) if t == "tuple" else LinkedList(x, ()))
    return leaf(sx, name, [k])


@harness("C05", quick=[{"ld": 1, "rd": 1, "lk": ["int", "bool", "str", "atom"], "rk": ["frac", "bool", "str", "atom"]},
                       {"ld": 1, "rd": 1, "lk": ["int"], "rk": ["int", "float"]},
                       {"ld": 2, "rd": 1, "lk": ["int", "bool"], "rk": ["int"]}],
         thorough=[{"ld": 1, "rd": 1, "lk": ["int", "bool", "str", "atom"], "rk": ["frac", "bool", "str", "atom"]},
                   {"ld": 2, "rd": 2, "lk": ["int"], "rk": ["float", "bool"]}],
         reach=["equal exactly when the same term", "equal terms hash equally"])
def equality(sx, ld, rd, lk, rk):
    """==, \\==, Literal equality, unification and hashes agree with structural equality"""
    a, b = gterm(sx, "l", ld, lk), gterm(sx, "r", rd, rk)
    va, vb = rview(a), rview(b)
    want = req(sx, va, vb)
    got = bool(ev(BinaryOp.op_eq, a, b))
    sx.observe("eq", got)
    sx.check(sx.Iff(got, want), "equal exactly when the same term")
    sx.check(sx.Iff(bool(ev(BinaryOp.op_eq, b, a)), want), "symmetric")
    sx.check(bool(ev(BinaryOp.op_ne, a, b)) == (not got), "\\== is the negation")
    la, lb = Literal("w", [a]), Literal("w", [b])
    sx.check(bool(la == lb) == got and bool(la != lb) == (not got), "wrapped in a literal")
    lla, llb = LinkedList(a, ()), LinkedList(b, ())
    sx.check(bool(lla == llb) == got and bool(lla != (b,)) == (not got) and bool((a,) == llb) == got, "wrapped in a list")
    sx.check(bool(ev(BinaryOp.op_eq, a, a)) and la == Literal("w", [a]), "reflexive")
    if got:
        sx.check(sx.same_hash(la, lb) and sx.same_hash(a, b) and sx.same_hash(lla, (b,)), "equal terms hash equally")
    if not _annotated(a) and not _annotated(b):
        sx.check(bool(agentspeak.unify(a, b, {}, stack())) == got, "agrees with unification")


def _annotated(t):
    if isinstance(t, Literal):
        return bool(t.annots) or any(_annotated(x) for x in t.args)
    if isinstance(t, (tuple, LinkedList)):
        return any(_annotated(x) for x in t)
    return False


# -- order ---------------------------------------------------------------------------

def comparable(sx, name, kind, d=1):
    if kind == "num":
        return leaf(sx, name, ["int", "frac"])
    if kind == "str":
        return sx.choose(name, list(STRINGS))
    if kind == "atom":
        return Literal(sx.choose(name, list(FUNCTORS)))
    if kind in ("list", "mixed", "nested"):
        n_ = sx.choose(name + ".n", [0, 1, 2])
        if kind == "nested":
            items = [comparable(sx, name, "list" if d else "num", d - 1) for _ in range(min(n_, 1))]
        elif kind == "mixed":
            items = ([leaf(sx, name, ["int"])] + [sx.choose(name, ["a", "b"])])[:n_]
        else:
            items = [leaf(sx, name, ["int"]) for _ in range(n_)]
        if items and sx.flag(name + ".ll"):
            return LinkedList(items[0], tuple(items[1:]))
        return tuple(items)
    if kind == "lit1":
        return Literal("f", [leaf(sx, name, ["int", "float"])])
    if kind == "lit2":
        return Literal("f", [leaf(sx, name, ["int"]), sx.choose(name, ["a", "b"])])
    if kind == "litl":
        return Literal("f", [comparable(sx, name, "list")])
    raise AssertionError(kind)


def rcmp(sx, x, y):
    """-1, 0, 1; forks."""
    if x[0] == "num":
        if sx.truth(sx.eq(x[1], y[1])):
            return 0
        return -1 if sx.truth(sx.lt(x[1], y[1])) else 1
    if x[0] == "str":
        return (x[1] > y[1]) - (x[1] < y[1])
    if x[0] == "lit":
        if x[1] != y[1]:
            return -1 if x[1] < y[1] else 1
        for p, q in zip(x[2], y[2]):
            c = rcmp(sx, p, q)
            if c:
                return c
        return 0
    if x[0] == "nil" or y[0] == "nil":
        return (x[0] != "nil") - (y[0] != "nil")
    return rcmp(sx, x[1], y[1]) or rcmp(sx, x[2], y[2])


OPS = [(BinaryOp.op_lt, lambda c: c < 0, lambda a, b: a < b), (BinaryOp.op_le, lambda c: c <= 0, lambda a, b: a <= b),
       (BinaryOp.op_gt, lambda c: c > 0, lambda a, b: a > b), (BinaryOp.op_ge, lambda c: c >= 0, lambda a, b: a >= b),
       (BinaryOp.op_eq, lambda c: c == 0, None), (BinaryOp.op_ne, lambda c: c != 0, None)]
KINDS = ["num", "str", "atom", "list", "mixed", "nested", "lit1", "lit2", "litl"]


@harness("C05", cases=[{"kind": k} for k in KINDS])
def order(sx, kind):
    """exactly one of <, ==, > and it is the lexicographic order"""
    a, b = comparable(sx, "l", kind), comparable(sx, "r", kind)
    c = rcmp(sx, rview(a), rview(b))
    got = [bool(ev(op, a, b)) for op, _, _ in OPS]
    sx.observe("order", tuple(got))
    sx.check(got == [f(c) for _, f, _ in OPS], "the order is lexicographic and total")
    rev = [bool(ev(op, b, a)) for op, _, _ in OPS]
    sx.check(rev == [f(-c) for _, f, _ in OPS], "the order is antisymmetric")
    sx.check([bool(f(a, b)) for _, _, f in OPS[:4]] == got[:4], "python comparison agrees")
    sx.check(sorted([a, b])[0] is (b if c > 0 else a), "sorting follows the order")


@harness("C05", quick=[{"kind": k} for k in ["num", "list", "lit1"]],
         thorough=[{"kind": k} for k in KINDS])
def transitive(sx, kind):
    """a < b and b < c give a < c; the same for <= and =="""
    a, b, c = [comparable(sx, "x", kind) for _ in range(3)]
    for op in (BinaryOp.op_lt, BinaryOp.op_le, BinaryOp.op_eq):
        if ev(op, a, b) and ev(op, b, c):
            sx.check(bool(ev(op, a, c)), "transitive")


@harness("C05", reach=["not comparable"])
def incomparable(sx):
    """pairs without an order are reported, also deep inside"""
    k = sx.num("k", 0, 2)
    j = sx.num("j", 0, 2, "float")
    terms = {"num": k, "bool": sx.flag("b"), "str": "a", "atom": Literal("a"), "list": (k,), "ll": LinkedList(k, ()),
             "f1": Literal("f", [k]), "g1": Literal("g", [j]), "f2": Literal("f", [k, j]), "nil": ()}
    order_ = {"num": "num", "bool": "bool", "str": "str", "atom": "atom", "list": "list", "ll": "list", "nil": "list",
              "f1": "f1", "g1": "g1", "f2": "f2"}
    x, y = sx.choose("x", sorted(terms)), sx.choose("y", sorted(terms))
    sx.assume(order_[x] != order_[y])
    a, b = terms[x], terms[y]
    wrap = sx.choose("wrap", ["none", "lit", "list", "second"])
    if wrap == "lit":
        a, b = Literal("w", [a]), Literal("w", [b])
    elif wrap == "list":
        a, b = (a,), (b,)
    elif wrap == "second":
        a, b = (1, a), LinkedList(1, (b,))
    op = sx.choose("op", [o for o, _, _ in OPS[:4]])
    try:
        ev(op, a, b)
    except AslError:
        sx.check(True, "not comparable")
    else:
        sx.fail("not comparable")
    sx.check(not ev(BinaryOp.op_eq, a, b) and ev(BinaryOp.op_ne, a, b), "and different")
