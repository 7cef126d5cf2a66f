"""C09: constant folding keeps the meaning of programs."""

from symx.api import harness
from .prog import *

BOUNDS = {
    "quick": "numeric trees of 2 operators (unary and binary) over symbolic integer leaves in [0,3], each leaf constant or bound at run time; conditions of 2 connectives over comparisons of symbolic numbers, strings, truth values, atoms and lists; constant expressions in 22 positions of a program; expressions of 2 operators with at most one operand that is no number, against one step per operator",
    "thorough": "as quick with trees of 3 operators and leaves that are decimals"}
OUTSIDE = ["exponents other than 0..2", "overflow to infinity"]
ASSUMPTIONS = ["the value of an expression whose operands are bound at run time is right (C25, C13)"]

NUM = ["+", "-", "*", "/", "div", "mod", "**"]


class Leaves(object):
    """Operands that are written as constants, or as variables bound by the context."""

    def __init__(self, sx):
        self.sx = sx
        self.consts = []        # (text as constant)

    def leaf(self, text, constant):
        self.consts.append((text, constant))
        return len(self.consts) - 1

    def text(self, i, folded):
        t, constant = self.consts[i]
        return t if folded and constant else "V%d" % i

    def facts(self):
        return "".join("v%d(%s).\n" % (i, t) for i, (t, _) in enumerate(self.consts))

    def bind(self):
        return " & ".join("v%d(V%d)" % (i, i) for i in range(len(self.consts)))


def show_e(ls, e, folded):
    if e[0] == "leaf":
        return ls.text(e[1], folded)
    if e[0] == "un":
        return "(" + e[1] + " " + show_e(ls, e[2], folded) + ")"
    if e[0] == "text":
        return e[1]
    return "(" + show_e(ls, e[2], folded) + " " + e[1] + " " + show_e(ls, e[3], folded) + ")"


def outcome(sx, src):
    status, w = run_source(sx, src)
    return status, [row_norm(r) for r in w.recs()]


def same_outcome(sx, ls, program):
    """program(folded): the program with constants behaves as the one with variables."""
    s1, r1 = outcome(sx, program(False))
    s2, r2 = outcome(sx, program(True))
    sx.observe("runtime", s1)
    sx.observe("folded", s2)
    if s1 != "ok":
        sx.check(s2 != "ok", "what cannot be evaluated is never replaced by a value")
        return
    if s2 == "load-error" and any(t == "0" for t, _ in ls.consts[1:]) and "/ 0" in program(True):
        # 1 / 0 where it is never evaluated
        return
    sx.check(s2 == "ok", "what can be evaluated is not rejected")
    sx.check(rows_equal(sx, r2, r1, True), "folded constants have the value of the expression")


def numeric(sx, ls, d, mixed, lo=0, hi=3):
    def leaf(exp=False):
        if exp:
            return ("leaf", ls.leaf(str(sx.choose("e", [0, 1, 2])), True))
        return ("leaf", ls.leaf(sx.numeral(sx.num("x", lo, hi)), not mixed or sx.flag("const")))
    op = sx.choose("op", NUM + ["u-", "u+"])
    if op[0] == "u":
        return ("un", op[1], numeric(sx, ls, d - 1, mixed) if d > 1 else leaf())
    side = sx.choose("side", [0, 1]) if d > 1 else 0
    if op == "**":
        return ("bin", op, numeric(sx, ls, d - 1, mixed) if d > 1 else leaf(), leaf(True))
    l, r = (numeric(sx, ls, d - 1, mixed) if d > 1 else leaf()), leaf()
    return ("bin", op, r, l) if side else ("bin", op, l, r)


@harness("C09", quick=[{"d": 1, "mixed": True}, {"d": 2, "mixed": False}, {"d": 2, "mixed": True}],
         thorough=[{"d": 2, "mixed": True}, {"d": 3, "mixed": False}], path_s=30,
         reach=["what cannot be evaluated is never replaced by a value", "folded constants have the value of the expression"])
def numbers(sx, d, mixed):
    """arithmetic on constants and on mixtures of constants and variables"""
    ls = Leaves(sx)
    e = numeric(sx, ls, d, mixed)
    same_outcome(sx, ls, lambda folded: ls.facts() + "!s.\n+!s : " + ls.bind() + " <- .rec(" + show_e(ls, e, folded) + ").\n")


COMP = ["<", "<=", ">", ">=", "==", "\\==", "=", "=.."]


def operand(sx, ls, kinds, mixed):
    k = sx.choose("kind", kinds)
    if k == "num":
        t = sx.numeral(sx.num("n", 0, 2))
    elif k == "neg":
        return ("un", "-", ("leaf", ls.leaf(sx.numeral(sx.num("n", 0, 2)), not mixed or sx.flag("const"))))
    elif k == "sum":
        return ("bin", "+", ("leaf", ls.leaf(sx.numeral(sx.num("n", 0, 1)), True)), ("leaf", ls.leaf("1", True)))
    elif k == "bad":
        return ("bin", "/", ("leaf", ls.leaf("1", True)), ("leaf", ls.leaf("0", True)))
    elif k == "str":
        t = sx.choose("str", ['"a"', '"b"'])
    else:
        t = {"bool": "true", "atom": "a", "list": "[1]", "lit": "f(1)", "cons": "[1|[]]", "false": "false", "empty": "[]"}[k]
    return ("leaf", ls.leaf(t, not mixed or sx.flag("const")))


KINDS = ["num", "neg", "sum", "bad", "str", "bool", "false", "atom", "list", "lit", "cons", "empty"]


@harness("C09", cases=[{"op": o} for o in COMP], path_s=30,
         reach=["what cannot be evaluated is never replaced by a value", "folded constants have the value of the expression"])
def comparisons(sx, op):
    """comparisons of constants of every kind"""
    ls = Leaves(sx)
    e = ("bin", op, operand(sx, ls, KINDS, True), operand(sx, ls, KINDS, True))
    how = sx.choose("how", ["if", "not", "arg"] if op not in ("=", "=..") else ["if", "not"])

    def program(folded):
        t = show_e(ls, e, folded)
        body = {"if": "if (%s) { .rec(1) } else { .rec(2) }", "not": "if (not %s) { .rec(1) } else { .rec(2) }", "arg": ".rec(%s)"}[how]
        return ls.facts() + "!s.\n+!s : " + ls.bind() + " <- " + body.replace("%s", t) + ".\n"
    same_outcome(sx, ls, program)


def condition(sx, ls, d, small=False):
    """A condition; true and false are a believed and a missing atom in the unfolded program."""
    k = sx.choose("c", ["cmp", "const"] + (["&", "|", "not"] if d else []))
    if k == "const":
        return ("const", sx.flag("value"))
    if k == "cmp" and small:
        return ("bin", "<", ("leaf", ls.leaf(sx.numeral(sx.num("n", 0, 1)), sx.flag("const"))), ("leaf", ls.leaf("1", True)))
    if k == "cmp":
        return ("bin", sx.choose("cmp", ["<", "==", "="]), operand(sx, ls, ["num"], True), operand(sx, ls, ["num", "str", "bad"] if not d else ["num"], False))
    if k == "not":
        return ("un", "not", condition(sx, ls, d - 1, small))
    return ("bin", k, condition(sx, ls, d - 1, small), condition(sx, ls, 0, small))


def show_c(ls, e, folded):
    if e[0] == "const":
        return ("true" if e[1] else "false") if folded else ("yes" if e[1] else "no")
    if e[0] == "un" and e[1] == "not":
        return "(not " + show_c(ls, e[2], folded) + ")"
    if e[0] == "bin" and e[1] in "&|":
        return "(" + show_c(ls, e[2], folded) + " " + e[1] + " " + show_c(ls, e[3], folded) + ")"
    return show_e(ls, e, folded)


CONDITIONS = {
    "if": "+!s : %b <- if (%c) { .rec(1) } else { .rec(2) }; .rec(3).\n",
    "context": "+!s : %b & %c <- .rec(1).\n+!s <- .rec(2).\n",
    "while": "+!s : %b <- while (%c & go) { .rec(1); -go }; .rec(3).\n",
    "for": "+!s : %b <- for (%c) { .rec(1) }; .rec(3).\n",
    "rule": "r :- %b & %c.\n+!s <- if (r) { .rec(1) } else { .rec(2) }.\n",
    "step": "+!s : %b & not (%c) <- .rec(2).\n+!s : %b <- %c; .rec(1).\n",
}


@harness("C09", quick=[{"place": p, "d": 1} for p in sorted(CONDITIONS)] + [{"place": "if", "d": 2}],
         thorough=[{"place": p, "d": 2} for p in sorted(CONDITIONS)], path_s=30,
         reach=["folded constants have the value of the expression"])
def conditions(sx, place, d):
    """truth values, comparisons and connectives in every kind of condition"""
    ls = Leaves(sx)
    ls.leaf("0", False)
    c = condition(sx, ls, d, d > 1)
    if place == "for":
        # solutions of | are not shared by folding: true | true holds twice when run
        sx.assume(not has_or(c))

    def program(folded):
        t = show_c(ls, c, folded)
        return "yes.\ngo.\n" + ls.facts() + "!s.\n" + CONDITIONS[place].replace("%b", ls.bind()).replace("%c", t)
    same_outcome(sx, ls, program)


def has_or(c):
    return isinstance(c, tuple) and (c[:2] == ("bin", "|") or any(has_or(x) for x in c))


POSITIONS = {
    "action": "!s.\n+!s : %b <- .rec(%e).\n",
    "belief": ("p(%e).\n!s.\n+!s : p(X) <- .rec(X).\n", "!s.\n+!s : %b <- +p(%e); ?p(X); .rec(X).\n"),
    "belief list": ("p([%e, [%e|[1]]]).\n!s.\n+!s : p(X) <- .rec(X).\n", "!s.\n+!s : %b <- .rec([%e, [%e|[1]]]).\n"),
    "belief annotation": ("p(0)[a(%e)].\n!s.\n+!s : p(X)[a(Y)] <- .rec(Y).\n", "!s.\n+!s : %b <- +p(0)[a(%e)]; ?p(X)[a(Y)]; .rec(Y).\n"),
    "nested literal": "!s.\n+!s : %b <- .rec(f(g(%e, 0), h)).\n",
    "list": "!s.\n+!s : %b <- .rec([%e, [%e]]).\n",
    "linked list": "!s.\n+!s : %b <- .rec([%e|[%e]]).\n",
    "tail": "!s.\n+!s : %b <- X = [0|[%e|[]]]; .rec(X).\n",
    "annotation": "!s.\n+!s : %b <- .rec(f[%e, g(%e)]).\n",
    "initial goal": ("!s(%e).\n+!s(X) <- .rec(X).\n", "!t.\n+!t : %b <- !s(%e).\n+!s(X) <- .rec(X).\n"),
    "subgoal": "!t.\n+!t : %b <- !s(%e).\n+!s(X) <- .rec(X).\n",
    "later goal": "!t.\n+!t : %b <- !!s(%e).\n+!s(X) <- .rec(X).\n",
    "test goal": "p(0). p(1). p(2). p(3). p(-1). p(5). !t.\n+!t : %b <- ?p(%e); .rec(%e).\n",
    "addition": "!t.\n+!t : %b <- +p(%e); ?p(X); .rec(X).\n",
    "removal": "p(0). p(1). p(2). p(3). p(4). !t.\n+!t : %b <- -p(%e); .findall(X, p(X), L); .sort(L, M); .rec(M).\n",
    # a constant in -+ stands for itself in the belief that is replaced
    "replacement": ("p(9). p(3). p(1). !t.\n+!t <- -+p(%e); .findall(X, p(X), L); .sort(L, M); .rec(M).\n",
                    "p(9). p(3). p(1). !t.\n+!t : %b <- -p(%e); +p(%e); .findall(X, p(X), L); .sort(L, M); .rec(M).\n"),
    "unification": "!t.\n+!t : %b <- X = %e; .rec(X).\n",
    "pattern": "p(f(0)). p(f(1)). p(f(2)). p(f(3)). !t.\n+!t : %b <- if (p(f(%e))) { .rec(yes) } else { .rec(no) }.\n",
    "generator": "!t.\n+!t : %b <- for (.range(%e, I)) { .rec(I) }; .rec(end).\n",
    "rule body": "r(X) :- %b & X = %e.\n!t.\n+!t : r(X) <- .rec(X).\n",
    "rule head": ("r(%e, f(%e)).\nr(%e, f(%e)) :- true.\n!t.\n+!t : r(X, Y) <- .rec(X, Y).\n", "!t.\n+!t : %b <- .rec(%e, f(%e)).\n"),
    "plan head": ("!t(0). !t(1). !t(2). !t(3). !t(-1).\n+!t(%e) <- .rec(yes).\n+!t(X) <- .rec(no).\n",
                  "!t(0). !t(1). !t(2). !t(3). !t(-1).\n+!t(X) : %b & X == %e <- .rec(yes).\n+!t(X) <- .rec(no).\n"),
    "body of if": "!t.\n+!t : %b <- if (true) { .rec(%e) } else { .rec(0) }; if (false) { .rec(0) } else { .rec(%e) }.\n",
    "body of loops": "!t.\n+!t : %b <- for (true) { .rec(%e) }; +go; while (go) { -go; .rec(%e) }.\n",
    "comparison chain": "!t.\n+!t : %b <- if (0 < %e < 3) { .rec(yes) } else { .rec(no) }.\n",
}


@harness("C09", cases=[{"place": p} for p in sorted(POSITIONS)], path_s=30, reach=["folded constants have the value of the expression"])
def positions(sx, place):
    """a constant expression in every position of a program"""
    ls = Leaves(sx)
    x, y, k = sx.num("x", 0, 2), sx.num("y", 0, 1), sx.choose("op", ["+", "-", "/", "u"])
    if k == "u":
        e = ("un", "-", ("bin", "-", ("leaf", ls.leaf(sx.numeral(x), True)), ("leaf", ls.leaf(sx.numeral(y), True))))
    else:
        e = ("bin", k, ("leaf", ls.leaf(sx.numeral(x), True)), ("leaf", ls.leaf(sx.numeral(y), True)))
    p = POSITIONS[place]
    folded_p, run_p = p if isinstance(p, tuple) else (p, p)

    def program(folded):
        return ls.facts() + (folded_p if folded else run_p).replace("%b", ls.bind()).replace("%e", show_e(ls, e, folded))
    same_outcome(sx, ls, program)


@harness("C09", path_s=30, reach=["the rest of the program is unchanged"])
def rest(sx):
    """everything around the constants still means the same"""
    ls = Leaves(sx)
    x, y = sx.num("x", 0, 2), sx.num("y", 0, 2)
    i, j = ls.leaf(sx.numeral(x), True), ls.leaf(sx.numeral(y), sx.flag("const"))
    k = sx.choose("t", ["f(%e, Z, [Z, %e|Z], g(_)[%e])", "[Z, %e, f(Z)]", "[%e|[Z|W]]", "f(Z, Z + %e)", "f[Z, %e]", "(Z = %e)"])
    op = sx.choose("op", ["+", "*", "-"])
    e = ("bin", op, ("leaf", i), ("leaf", j))
    if k == "f(%e, Z, [Z, %e|Z], g(_)[%e])":
        k = "f(%e, Z, [%e|[Z, %e]], g(Z)[%e])"

    def program(folded):
        t = k.replace("%e", show_e(ls, e, folded))
        body = "if (%s) { .rec(Z) }" % t if k[0] == "(" else ".rec(%s, Z, W)" % t
        if k.startswith("(Z"):
            body = ".rec(1); if (not q(Z) & not q(Z)) { .rec(0) }; for (" + t[1:-1] + ") { .rec(Z) }"
        return "q(2).\n" + ls.facts() + "!s.\n+!s : " + ls.bind() + (" & q(Z)" if "Z + " in k else "") + " <- " + body + "; .rec(end).\n"
    same_outcome(sx, ls, program)
    sx.check(True, "the rest of the program is unchanged")


BADVAL = ["num", "str", "atom", "true", "list"]


@harness("C09", quick=[{"d": 2}], thorough=[{"d": 2}, {"d": 3}], path_s=30,
         reach=["folded constants have the value of the expression", "what cannot be evaluated is never replaced by a value"])
def steps(sx, d):
    """an expression means what evaluating its operators one after the other means, also when
    operands are not numbers and only some of them are known when the program is loaded"""
    ls = Leaves(sx)
    bad = [False]

    def leaf():
        k = sx.choose("kind", ["num"] if bad[0] else BADVAL)
        if k == "num":
            t = sx.numeral(sx.num("x", 0, 2))
        else:
            bad[0] = True
            t = {"str": '"a"', "atom": "a", "true": "true", "list": "[1]"}[k]
        return ("leaf", ls.leaf(t, sx.flag("const")))

    def tree(k):
        if k == 0:
            return leaf()
        op = sx.choose("op", ["u-", "u+", "+", "-", "*"])
        if op[0] == "u":
            return ("un", op[1], tree(k - 1))
        if sx.flag("left"):
            return ("bin", op, tree(k - 1), leaf())
        return ("bin", op, leaf(), tree(k - 1))
    e = tree(d)
    lines = []

    def flat(t):
        if t[0] == "leaf":
            return "V%d" % t[1]
        subs = [flat(x) for x in t[2:]]
        name = "T%d" % len(lines)
        lines.append(name + " = " + (t[1] + " " + subs[0] if t[0] == "un" else subs[0] + " " + t[1] + " " + subs[1]))
        return name
    last = flat(e)

    def program(folded):
        src = ls.facts() + "!s.\n+!s : " + ls.bind()
        if folded:
            return src + " <- .rec(" + show_e(ls, e, True) + ").\n"
        return src + " & " + " & ".join(lines) + " <- .rec(" + last + ").\n"
    same_outcome(sx, ls, program)
