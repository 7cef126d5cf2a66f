"""C25: arithmetic and comparisons evaluate to their mathematical meaning."""

from symx.api import harness
from .common import *
from .prog import World, n
from agentspeak import AslError, BinaryExpr, UnaryExpr, BinaryOp, UnaryOp

BOUNDS = {
    "quick": "every unary and binary operator on all pairs of operand kinds (int in [-6,6], decimal multiples of 1/4 in [-3,3] (decimal divisors from 6 constants), true/false, string, atom, list, literal, bound variable, unbound variable, wildcard); nested expressions with two operators over integers in [-4,4]; ** with constant exponents -2..3 and fractions; the same through running programs (=, arguments, conditions)",
    "thorough": "as quick with nested expressions of three operators and ranges [-20,20]"}
OUTSIDE = ["rounding of inexact decimal results (decimals are multiples of 1/4, results exact rationals)",
           "integers beyond machine precision converted to decimals"]
ASSUMPTIONS = ["floating point is modelled as exact rationals; replays compare on the real floats within 1e-9"]

NUMERIC = ["+", "-", "*", "/", "div", "mod"]
OPS = {o.value.lexeme: o.value for o in BinaryOp}
UN = {o.value.lexeme: o.value for o in UnaryOp}


def rbin(sx, op, x, y):
    """Reference value of numbers, or None when undefined."""
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if sx.truth(sx.eq(y, 0)):
        return None
    return ("quot", x, y, op)


def floor_is(sx, q, x, y):
    """q == floor(x / y) as a formula (y != 0), q integral."""
    pos = sx.lt(0, y)
    lo, hi = q * y, (q + 1) * y
    return sx.And(sx.Implies(pos, sx.And(sx.le(lo, x), sx.lt(x, hi))),
                  sx.Implies(sx.Not(pos), sx.And(sx.le(x, lo), sx.lt(hi, x))))


def value_is(sx, want, got):
    if not agentspeak.is_number(got):
        return False
    if not isinstance(want, tuple):
        return close(sx, want, got)
    _, x, y, op = want
    if op == "/":
        return close(sx, got * y, x)
    if op == "div":
        return sx.And(floor_is(sx, got, x, y), integral(sx, got))
    # mod: x == floor(x/y) * y + m
    m = got
    rng = sx.And(sx.Implies(sx.lt(0, y), sx.And(sx.le(0, m), sx.lt(m, y))),
                 sx.Implies(sx.lt(y, 0), sx.And(sx.lt(y, m), sx.le(m, 0))))
    q = BinaryExpr(OPS["/"], x - m, y).evaluate({})
    return sx.And(rng, integral(sx, q))


def integral(sx, v):
    if sx.symbolic:
        from symx.values import lift
        import z3
        e = lift(v)
        return z3.IsInt(e) if e.is_real() else True
    return abs(v - round(v)) < 1e-9


def close(sx, a, b):
    if sx.symbolic:
        return sx.eq(a, b)
    return abs(a - b) < 1e-9


def kind_ok(op, x, y, got):
    fl = isinstance(x, float) or isinstance(y, float) or op == "/"
    return isinstance(got, float) == fl


def operand(sx, name, refs, scope, divisor=False):
    k = sx.choose(name, ["int", "frac", "bool", "str", "atom", "list", "lit", "bound", "boundbool", "unbound", "wild"])
    if k == "int":
        return k, sx.num(name, -6, 6)
    if k == "frac" and divisor:
        return k, sx.choose(name, [-1.5, -0.25, 0.0, 0.5, 2.0, 2.75])
    if k == "frac":
        return k, sx.num(name, -3, 3, "float", den=4)
    if k == "bool":
        return k, sx.flag(name)
    if k == "str":
        return k, sx.choose(name, ["a", "1", ""])
    if k == "atom":
        return k, Literal("a")
    if k == "list":
        return k, (1,)
    if k == "lit":
        return k, Literal("f", [1])
    v = Var()
    if k == "bound":
        scope[v] = sx.num(name, -6, 6)
        return "int", v
    if k == "boundbool":
        scope[v] = sx.flag(name)
        return "bool", v
    return k, (Wildcard() if k == "wild" else v)


def val(t, scope):
    return scope.get(t, t) if isinstance(t, Var) else t


@harness("C25", cases=[{"op": o} for o in NUMERIC],
         reach=["value of the operation", "operands of the wrong type are errors"])
def binary(sx, op):
    """one numeric operator on every pair of operand kinds"""
    scope = {}
    (kx, x), (ky, y) = operand(sx, "x", None, scope), operand(sx, "y", None, scope, op in ("/", "div", "mod"))
    e = BinaryExpr(OPS[op], x, y)
    numeric = kx in ("int", "frac") and ky in ("int", "frac")
    if not numeric:
        try:
            agentspeak.evaluate(e, scope)
        except AslError:
            sx.check(True, "operands of the wrong type are errors")
        else:
            sx.fail("operands of the wrong type are errors")
        return
    a, b = val(x, scope), val(y, scope)
    want = rbin(sx, op, a, b)
    try:
        got = agentspeak.evaluate(e, scope)
    except AslError:
        sx.check(want is None, "defined operations have a value")
        return
    sx.check(want is not None, "division by zero is an error")
    sx.check(value_is(sx, want, got), "value of the operation")
    sx.check(kind_ok(op, a, b, got), "integers stay integers")


@harness("C25", reach=["sign of the operand", "truth values only", "negation"])
def unary(sx):
    """unary minus, plus and not on every operand kind"""
    scope = {}
    k, x = operand(sx, "x", None, scope)
    op = sx.choose("op", ["-", "+", "not"])
    a = val(x, scope)
    ok = k == "bool" if op == "not" else k in ("int", "frac")
    try:
        got = agentspeak.evaluate(UnaryExpr(UN[op], x), scope)
    except AslError:
        sx.check(not ok, "truth values only" if op == "not" else "numbers only")
        return
    sx.check(ok, "truth values only" if op == "not" else "numbers only")
    if op == "not":
        sx.check(got is (not a), "negation")
    else:
        sx.check(agentspeak.is_number(got) and bool(isinstance(got, float)) == (k == "frac"), "number of the same kind")
        sx.check(sx.eq(got, -a if op == "-" else a), "sign of the operand")


@harness("C25", reach=["truth table", "truth values only"])
def boolean(sx):
    """& and | on truth values, and nothing else"""
    scope = {}
    (kx, x), (ky, y) = operand(sx, "x", None, scope), operand(sx, "y", None, scope)
    op = sx.choose("op", ["&", "|"])
    ok = kx == "bool" and ky == "bool"
    try:
        got = agentspeak.evaluate(BinaryExpr(OPS[op], x, y), scope)
    except AslError:
        sx.check(not ok, "truth values only")
        return
    sx.check(ok, "truth values only")
    a, b = val(x, scope), val(y, scope)
    sx.check(got is ((a and b) if op == "&" else (a or b)), "truth table")


CMP = ["<", "<=", ">", ">=", "==", "\\=="]


@harness("C25", cases=[{"op": o} for o in CMP], reach=["comparison of numbers"])
def comparison(sx, op):
    """a comparison yields the truth value of the mathematical relation"""
    scope = {}
    (kx, x), (ky, y) = operand(sx, "x", None, scope), operand(sx, "y", None, scope)
    nums = kx in ("int", "frac") and ky in ("int", "frac")
    open_ = kx in ("unbound", "wild") or ky in ("unbound", "wild")
    e = BinaryExpr(OPS[op], x, y)
    a, b = val(x, scope), val(y, scope)
    try:
        got = agentspeak.evaluate(e, scope)
    except AslError:
        same = kx == ky and kx != "bool"
        sx.check(open_ or (op not in ("==", "\\==") and not nums and not same), "comparable values have a truth value")
        return
    sx.check(got is True or got is False, "a truth value")
    sx.check(not open_, "unbound variables are errors")
    if nums:
        f = {"<": sx.lt(a, b), "<=": sx.le(a, b), ">": sx.lt(b, a), ">=": sx.le(b, a), "==": sx.eq(a, b),
             "\\==": sx.Not(sx.eq(a, b))}[op]
        sx.check(sx.Iff(got, f), "comparison of numbers")
    elif kx != ky:
        sx.check(op in ("==", "\\=="), "values of different types have no order")
        sx.check(got is (op == "\\=="), "values of different types are different")
    elif kx in ("atom", "list", "lit"):
        sx.check(got is (op in ("==", "<=", ">=")), "equal terms")
    elif kx == "str":
        sx.check(got is {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "\\==": a != b}[op],
                 "comparison of strings")
    elif kx == "bool" and op in ("==", "\\=="):
        sx.check(got is ((a is b) == (op == "==")), "equality of truth values")


def power(sx, x, k):
    r = 1
    for _ in range(abs(k)):
        r = r * x
    return r


@harness("C25", reach=["power"])
def powers(sx):
    """** with small constant exponents"""
    if sx.flag("special"):
        x = sx.choose("base", [-8, -1, -0.25, 0, 0.0, 0.25, 4, 2.25])
        k = sx.choose("exponent", [0.5, -0.5, -1, -2.0, 1.5])
        try:
            got = agentspeak.evaluate(BinaryExpr(OPS["**"], x, k), {})
        except AslError:
            sx.check(x == 0 and k < 0 or x < 0 and k != int(k), "powers without a value are errors")
            return
        sx.check(not isinstance(got, complex) and not (x == 0 and k < 0) and not (x < 0 and k != int(k)), "powers without a value are errors")
        sx.check(abs(got * got - {1.0: x, -1.0: 1 / x if x else 0, -2.0: x ** -2 if x else 0, -4.0: x ** -4 if x else 0, 3.0: x ** 3}[2 * k]) < 1e-9, "power")
        return
    k = sx.choose("k", [-2, -1, 0, 1, 2, 3])
    x = sx.num("x", -4, 4, sx.choose("kind", ["int", "float"]))
    if k < 0:
        sx.assume(sx.Not(sx.eq(x, 0)))
    got = agentspeak.evaluate(BinaryExpr(OPS["**"], x, k), {})
    p = power(sx, x, k)
    sx.check(close(sx, got * p, 1) if k < 0 else close(sx, got, p), "power")
    for bad in (True, "a", Literal("a"), (2,), Var()):
        for e in (BinaryExpr(OPS["**"], bad, k), BinaryExpr(OPS["**"], x, bad)):
            try:
                agentspeak.evaluate(e, {})
            except AslError:
                pass
            else:
                sx.fail("operands of the wrong type are errors")


@harness("C25", quick=[{"d": 2, "r": 4}], thorough=[{"d": 3, "r": 20}])
def nested(sx, d, r):
    """expressions of several operators evaluate inside out, in every argument position"""
    scope = {}
    vs = [Var(), Var()]
    for v in vs:
        scope[v] = sx.num("v", -r, r)

    def gen(i):
        if i == 0:
            k = sx.choose("leaf", [0, 1, 2])
            t = vs[k] if k < 2 else sx.num("c", -r, r)
            return t, val(t, scope)
        op = sx.choose("op", ["+", "-", "*", "u-", "if<"])
        a, wa = gen(i - 1)
        if op == "u-":
            return UnaryExpr(UN["-"], a), -wa
        b, wb = gen(sx.choose("d", [0, i - 1]) if i > 1 else 0)
        if op == "if<":
            return BinaryExpr(OPS["-"], BinaryExpr(OPS["+"], a, b), b), wa
        return BinaryExpr(OPS[op], a, b), (wa + wb if op == "+" else wa - wb if op == "-" else wa * wb)
    e, want = gen(d)
    got = agentspeak.evaluate(e, scope)
    sx.check(sx.And(agentspeak.is_number(got), sx.eq(got, want)), "value of a nested expression")
    lit = agentspeak.freeze(Literal("f", [e, (e,)]), scope, {})
    sx.check(sx.And(sx.eq(lit.args[0], want), sx.eq(lit.args[1][0], want)), "inside structures")
    sx.check(sx.eq(agentspeak.grounded(e, scope), want), "grounded")
    st = stack()
    u = Var()
    sx.check(bool(agentspeak.unify(u, e, scope, st)) and sx.eq(scope[u], want), "X = E")
    sx.check(sx.Iff(bool(agentspeak.unify(e, 3, scope, stack())), sx.eq(want, 3)), "unifies with its value")


@harness("C25", reach=["program value", "program error"])
def programs(sx):
    """the same in programs: assignments, arguments, conditions"""
    N = sx.numeral
    x, y = sx.num("x", 0, 5), sx.num("y", 0, 5)
    op = sx.choose("op", ["+", "-", "*", "/", " div ", " mod ", "**", "<", "==", "\\=="])
    if op == "**":
        y = sx.choose("ky", [0, 1, 2])
    bad = sx.choose("bad", [None, None, "true", '"a"', "a", "[1]", "Z"])
    a, b = N(x), N(y)
    if bad:
        if sx.flag("left"):
            a = bad
        else:
            b = bad
    pos = sx.choose("pos", ["eq", "arg", "goal", "cond"])
    if sx.flag("vars"):
        pre = ("A = %s; " % a if a != "Z" else "") + ("B = %s; " % b if b != "Z" else "")
        e = "A%sB" % op
    else:
        pre, e = "", "(%s)%s(%s)" % (a, op, b)
    e = "(%s)" % e
    cmp_ = op in ("<", "==", "\\==")
    body = {"eq": "R = %s; .rec(R)", "arg": ".rec(%s)", "goal": "!g(%s)",
            "cond": "if (%s) { .rec(true) } else { .rec(false) }" if cmp_ else "if (%s == R0) { .rec(1) }"}[pos] % e
    if pos == "cond" and not cmp_:
        body = "R0 = 3; if (R0 == %s) { .rec(yes) } else { .rec(no) }" % e
    w = World(sx)
    try:
        w.build("!s.\n+!s <- %s%s.\n+!g(X) <- .rec(X).\n" % (pre, body))
    except agentspeak.AggregatedError:
        sx.check(bad is not None or (op in ("/", " div ", " mod ") and sx.eq(y, 0)), "loads")
        return
    status = w.run()
    sx.observe("status", status)
    o = op.strip()
    if bad is not None and not (o in ("==", "\\==") and bad != "Z"):
        sx.check(status == "error" and not w.recs(), "program error")
        return
    if bad is not None:
        want = o == "\\=="
    elif cmp_:
        want = sx.truth(sx.lt(x, y) if o == "<" else sx.eq(x, y)) != (o == "\\==")
    elif o == "**":
        want = power(sx, x, y)
    else:
        want = rbin(sx, o, x, y)
        if want is None:
            sx.check(status == "error" and not w.recs(), "program error")
            return
    sx.check(status == "ok" and len(w.recs()) == 1, "runs")
    got = w.recs()[0][0]
    if cmp_:
        sx.check(got is want, "program value")
    elif pos == "cond":
        is3 = value_is(sx, want, 3)
        sx.check(sx.Iff(got.functor == "yes", is3), "program value")
    else:
        sx.check(value_is(sx, want, got), "program value")
