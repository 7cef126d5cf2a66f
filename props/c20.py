"""C20: library actions."""

import agentspeak.runtime

from symx.api import harness, norm, flat_ll
from .prog import *

BOUNDS = {
    "quick": "lists of 0-3 elements (symbolic numbers -2..3, ints and halves, mixed with atoms, strings, sub-lists, shared unbound variables) written as plain, linked, partly linked or bound variables; strings of 0-4 symbolic characters out of {a, b}; numbers in quarters -10..10; the result argument unbound, given with a symbolic value, shared with another argument or ignored; 0-3 beliefs and 1 rule for the aggregations",
    "thorough": "lists of up to 4, strings of up to 6 characters, 4 beliefs"}
OUTSIDE = ["ordering of lists with elements of different kinds", "lists that end in an unbound variable", "queries of aggregations that are not literals",
           "sums of other values than numbers", "results of .concat of values other than strings, atoms and numbers"]
ASSUMPTIONS = ["numbers are exact (no rounding of binary floating point)"]


def flat(x):
    return flat_ll(norm(x))


FORMS = ["plain", "linked", "linked1", "bound", "tail"]


def list_text(form, items, name="L"):
    """(prefix, text) of a list in the given form."""
    if form == "plain" or (not items and form not in ("bound",)):
        return "", "[" + ", ".join(items) + "]"
    if form == "bound":
        return "%s = [%s] & " % (name, ", ".join(items)), name
    if form == "linked":
        t = "[]"
        for i in reversed(items):
            t = "[%s|%s]" % (i, t)
        return "", t
    if form == "linked1":
        return "", "[%s|[%s]]" % (items[0], ", ".join(items[1:]))
    return "%sT = [%s] & " % (name, ", ".join(items[1:])), "[%s|%sT]" % (items[0], name)


def element(sx, name, kinds=("int", "half", "atom", "string", "list", "struct")):
    """(source text, facts, value)"""
    k = sx.choose(name, list(kinds))
    if k in ("int", "half", "list", "struct"):
        x = sx.num(name + "x", -2, 3) if k != "half" else sx.num(name + "h", -2, 3, kind="float", den=2)
        v_ = "N" + name
        f = [(v_, x)]
        if k in ("int", "half"):
            return v_, f, x
        if k == "list":
            return "[%s, a]" % v_, f, (x, Literal("a"))
        return "f(%s)" % v_, f, Literal("f", (x,))
    if k == "atom":
        c = sx.choose(name + "c", ["a", "b"])
        return c, [], Literal(c)
    c = sx.choose(name + "c", ["a", "b"])
    return '"%s"' % c, [], c


class Call(object):
    """Collects facts for symbolic numbers and runs one action call."""

    def __init__(self, sx):
        self.sx = sx
        self.facts = []
        self.program = ""

    def num(self, name, x):
        self.facts.append((name, x))
        return name

    def el(self, name, *a_):
        t, f, v_ = element(self.sx, name, *a_)
        self.facts += f
        return t, v_

    def run(self, pre, call, show):
        """All solutions: (status, rows of `show` per solution, world); also checks that
        variables and beliefs are unchanged afterwards."""
        sx = self.sx
        src = self.program
        q = "true"
        for n_, x in self.facts:
            src += "k_%s(%s).\n" % (n_.lower(), sx.numeral(x))
            q += " & k_%s(%s)" % (n_.lower(), n_)
        src += "!s.\n+!s <- !t.\n+!t : %s <- .rec(pre, %s); for (%strue & %s) { .rec(it, %s) }; .rec(post, %s).\n" % (q, show, pre, call, show, show)
        w = World(sx)
        ag = w.build(src)

        def beliefs():
            return sorted((k, [flat(b) for b in bs]) for k, bs in ag.beliefs.items() if bs)
        before = {k: list(bs) for k, bs in ag.beliefs.items() if bs}
        status = w.run()
        if status == "ok":
            after = {k: list(bs) for k, bs in ag.beliefs.items() if bs}
            sx.check(sorted(before) == sorted(after) and all(sx.truth(sx.multiset(before[k], after[k])) for k in before), "no effect on beliefs")
            rs = w.recs()
            sx.check(row_shape(rs[0][1:]) == row_shape(rs[-1][1:]), "no effect on variables")
            return status, [r[1:] for r in rs[1:-1]], w
        return status, [r[1:] for r in w.recs()[1:]], w


def row_shape(row):
    m = {}
    return tuple(("var", m.setdefault(id(t), len(m))) if isinstance(t, Var) else "val" for t in row)


def expect(sx, call, pre, text, want, mode, extra="", label="the defined result"):
    """want: list of solution values of the last argument, or None for an error; mode says
    how the last argument is given."""
    c = call
    if mode == "unbound":
        status, got, w = c.run(pre, text % "R", "R")
    elif mode == "given":
        g = sx.num("given", -3, 6)
        c.num("G", g)
        status, got, w = c.run(pre, text % "G", "G")
    elif mode == "computed":
        g = sx.num("given", -3, 6)
        c.num("G", g)
        status, got, w = c.run(pre, text % "G + 1", "G")
    elif mode == "ignored":
        status, got, w = c.run(pre, text % "_", "z")
    elif mode == "equal":
        g = sx.num("given", -3, 6)
        c.num("G", g)
        status, got, w = c.run(pre, (text % "R") + " & R = G", "R")
    if want is None:
        sx.check(status == "error", "wrong arguments are errors")
        return
    sx.check(status == "ok", "no error")
    if mode == "unbound":
        sx.check(len(got) == len(want), label)
        sx.check(sx.And(*[sx.same_n(flat(a_[0]), flat(b)) for a_, b in zip(got, want)]), label)
    elif mode == "ignored":
        sx.check(len(got) == len(want), label)
    else:
        t = g if mode != "computed" else g + 1
        hits = [b for b in want if sx.truth(sx.same_n(flat(b), flat(t)))]
        sx.check(len(got) == len(hits), "succeeds with a given result exactly when it is equal")


MODES = ["unbound", "given", "computed", "ignored", "equal"]


def the_list(sx, c, n, name="e", kinds=("int", "half", "atom", "string", "list", "struct"), forms=FORMS):
    items, vals = [], []
    for i in range(n):
        if n < 2:
            ks = kinds
        elif n == 2:
            ks = kinds if i == 0 else ("int", "half") if "half" in kinds else ("int",)
        else:
            ks = tuple(k for k in kinds if k in ("int", "atom", "list")) if i == 0 else ("int",)
        t, v_ = c.el("%s%d" % (name, i), ks)
        items.append(t)
        vals.append(v_)
    form = sx.choose(name + "form", forms)
    pre, text = list_text(form, items, name.upper())
    return pre, text, vals


def sizes(k):
    return list(range(k + 1))


@harness("C20", quick=[{"n": n_} for n_ in sizes(3)], thorough=[{"n": n_} for n_ in sizes(4)], path_s=30, reach=["the defined result"])
def length(sx, n):
    """.length of lists and strings"""
    c = Call(sx)
    mode = sx.choose("mode", MODES)
    if sx.flag("string"):
        pre, text = "", '"%s"' % "".join(sx.choose("c%d" % i, ["a", " "]) for i in range(n))
    else:
        pre, text, _ = the_list(sx, c, n)
    expect(sx, c, pre, ".length(%s, %%s)" % text, [n], mode)


@harness("C20", quick=[{"n": n_} for n_ in sizes(3)], thorough=[{"n": n_} for n_ in sizes(4)], path_s=30, reach=["the defined result", "wrong arguments are errors"])
def nth(sx, n):
    """.nth with every index in and out of range"""
    c = Call(sx)
    mode = sx.choose("mode", MODES)
    pre, text, vals = the_list(sx, c, n)
    i = sx.num("i", -3, 4)
    c.num("I", i)
    idx = None
    for k in range(n):
        if sx.truth(sx.eq(i, k)):
            idx = k
    expect(sx, c, pre, ".nth(I, %s, %%s)" % text, None if idx is None else [vals[idx]], mode)


@harness("C20", quick=[{"n": n_} for n_ in sizes(3)], thorough=[{"n": n_} for n_ in sizes(4)], path_s=30, reach=["all members in order"])
def member(sx, n):
    """.member enumerates the members in order, or tests membership"""
    c = Call(sx)
    mode = sx.choose("mode", MODES)
    pre, text, vals = the_list(sx, c, n)
    expect(sx, c, pre, ".member(%%s, %s)" % text, vals, mode, label="all members in order")


@harness("C20", quick=[{"n": n_} for n_ in sizes(3)], thorough=[{"n": n_} for n_ in sizes(4)], path_s=30, reach=["the defined result"])
def tail(sx, n):
    """.tail drops the first element"""
    c = Call(sx)
    sx.assume(n > 0)
    pre, text, vals = the_list(sx, c, n)
    expect(sx, c, pre, ".tail(%s, %%s)" % text, [tuple(vals[1:])], sx.choose("mode", MODES))
    # given result lists
    c2 = Call(sx)
    c2.facts = list(c.facts)
    g = sx.num("g", -3, 4)
    c2.num("GG", g)
    rest = ", ".join("X%d" % i for i in range(n - 2))
    if n > 1:
        status, got, w = c2.run(pre, ".tail(%s, [GG%s])" % (text, (", " + rest) if rest else ""), "GG")
        sx.check(status == "ok" and sx.truth(sx.same_n(flat(vals[1]), flat(g))) == (len(got) == 1), "succeeds with a given result exactly when it is equal")


@harness("C20", quick=[{"n": n_, "m": m} for n_, m in [(0, 0), (0, 2), (1, 1), (2, 1), (2, 0), (1, 2)]],
         thorough=[{"n": n_, "m": m} for n_ in range(4) for m in range(3)], path_s=30, reach=["the defined result"])
def concat(sx, n, m):
    """.concat of lists, also of three"""
    c = Call(sx)
    pre1, t1, v1 = the_list(sx, c, n, "e", ("int", "half", "atom", "list"))
    pre2, t2, v2 = the_list(sx, c, m, "f", ("int",), ("plain", "linked", "bound"))
    three = sx.flag("three")
    args, want = (t1, t2), tuple(v1) + tuple(v2)
    if three:
        args, want = (t1, t2, "[z|[]]"), want + (Literal("z"),)
    expect(sx, c, pre1 + pre2, ".concat(%s, %%s)" % ", ".join(args), [want], sx.choose("mode", ["unbound", "given", "ignored"]))
    c2 = Call(sx)
    c2.facts = list(c.facts)
    status, got, w = c2.run(pre1 + pre2, ".concat(%s, [H|Q])" % ", ".join(args), "H, Q")
    sx.check(status == "ok" and len(got) == (1 if want else 0), "succeeds with a given result exactly when it is equal")
    if want:
        sx.check(sx.And(sx.same_n(flat(got[0][0]), flat(want[0])), sx.same_n(flat(got[0][1]), flat(want[1:]))), "the defined result")


PIECES = ['""', '"a"', '"b c"', '"ab"', "foo", "true", "7", "X", "f(1)", '"1"']


@harness("C20", reach=["the defined result"])
def concat_text(sx):
    """.concat of strings and other printable values"""
    k = sx.choose("k", [1, 2, 3])
    parts = [sx.choose("p", PIECES if i == 0 else ['"a"', "true", "9", "foo"]) for i in range(k)]
    if sx.flag("variable"):
        parts.append("X")
    # lists only (or nothing) would be a list
    want = "".join({"X": "5"}.get(p, p).strip('"') for p in parts)
    c = Call(sx)
    given = sx.flag("given")
    status, got, w = c.run("X = 5 & ", ".concat(%s, %s)" % (", ".join(parts), '"%s"' % want if given else "R"), "R")
    sx.check(status == "ok" and len(got) == 1, "the defined result")
    if not given:
        sx.check(isinstance(got[0][0], str) and got[0][0] == want, "the defined result")
    else:
        c = Call(sx)
        status, got, w = c.run("X = 5 & ", ".concat(%s, \"%s!\")" % (", ".join(parts), want), "R")
        sx.check(status == "ok" and len(got) == 0, "succeeds with a given result exactly when it is equal")


@harness("C20", quick=[{"n": n_, "kind": k} for n_ in sizes(3) for k in ("number", "string", "atom")],
         thorough=[{"n": n_, "kind": k} for n_ in sizes(4) for k in ("number", "string", "atom")], path_s=40, reach=["sorted", "the extreme"])
def order(sx, n, kind):
    """.sort, .min and .max"""
    c = Call(sx)
    items, vals = [], []
    for i in range(n):
        if kind == "number":
            t, v_ = c.el("e%d" % i, ("int", "half") if i < 2 else ("int",))
        elif kind == "string":
            v_ = sx.choose("s", ["", "a", "ab", "b", "B"])
            t = '"%s"' % v_
        else:
            if i == 0:
                atoms = sx.flag("atoms")
            a_ = sx.choose("s", ["a", "b", "ab"] if atoms else ["f(1)", "f(0)", "f(-1)"])
            t, v_ = a_, (Literal(a_) if len(a_) < 3 else Literal("f", (int(a_[2:-1]),)))
        items.append(t)
        vals.append(v_)
    pre, text = list_text(sx.choose("form", FORMS), items, "E")
    act = sx.choose("act", [".sort", ".min", ".max"])

    def le(x, y):
        if kind == "number":
            return sx.le(x, y)
        if kind == "string":
            return x <= y
        return (x.functor, x.args) <= (y.functor, y.args)
    status, got, w = c.run(pre, "%s(%s, R)" % (act, text), "R")
    if act != ".sort" and n == 0:
        sx.check(status == "error", "wrong arguments are errors")
        return
    sx.check(status == "ok" and len(got) == 1, "the defined result")
    r = got[0][0]
    if act == ".sort":
        r = list(r)
        sx.check(len(r) == n and sx.truth(sx.multiset(r, vals)), "sorted")
        sx.check(sx.And(*[le(x, y) for x, y in zip(r, r[1:])]), "sorted")
    else:
        sx.check(sx.Or(*[sx.same(r, v_) for v_ in vals]), "the extreme")
        sx.check(sx.And(*[le(r, v_) if act == ".min" else le(v_, r) for v_ in vals]), "the extreme")
    if kind == "number" and n:
        # a given result
        g = sx.num("g", -2, 3)
        c.num("G", g)
        status, got, w = c.run(pre, "%s(%s, %s)" % (act, text, "G" if act != ".sort" else "[G|_]"), "G")
        m = r if act != ".sort" else r[0]
        sx.check(status == "ok" and sx.truth(sx.eq(m, g)) == (len(got) == 1), "succeeds with a given result exactly when it is equal")


@harness("C20", quick=[{"n": n_, "m": m} for n_ in range(3) for m in range(5)],
         thorough=[{"n": n_, "m": m} for n_ in range(4) for m in range(7)], path_s=30, reach=["all occurrences in order"])
def substring(sx, n, m):
    """.substring finds every occurrence, overlapping ones too"""
    needle, hay = sx.text("needle", n, "ab"), sx.text("hay", m, "ab")
    w = World(sx)
    ag = w.build("+!t <- for (p(N, H) & .substring(N, H, I)) { .rec(I) }; .rec(x); ?p(N, H); ?g(G); if (.substring(N, H, G)) { .rec(y) } else { .rec(n) }.\n")
    g = sx.num("g", -1, m)
    ag.add_belief(Literal("p", (needle, hay)), {})
    ag.add_belief(Literal("g", (g,)), {})
    ag.call(agentspeak.Trigger.addition, agentspeak.GoalType.achievement, Literal("t"), agentspeak.runtime.Intention(), delayed=True)
    sx.check(w.run() == "ok", "no error")
    want = [i for i in range(m - n + 1) if sx.truth(sx.eq(hay[i:i + n], needle))]
    recs = [r[0] for r in w.recs()]
    sx.check(recs[:-2] == want, "all occurrences in order")
    hit = any(sx.truth(sx.eq(g, i)) for i in want)
    sx.check(recs[-1].functor == ("y" if hit else "n"), "succeeds with a given result exactly when it is equal")


@harness("C20", reach=["all numbers in order"])
def range_(sx):
    """.range enumerates 0..n-1"""
    c = Call(sx)
    x = sx.num("x", -2, 4)
    c.num("X", x)
    mode = sx.choose("mode", MODES)
    want = []
    while len(want) < 5 and sx.truth(sx.lt(len(want), x)):
        want.append(len(want))
    expect(sx, c, "", ".range(X, %s)", want, mode, label="all numbers in order")


@harness("C20", cases=[{"act": a_} for a_ in (".floor", ".ceil", ".round")], reach=["the rounded value"])
def rounding(sx, act):
    """.floor, .ceil and .round"""
    c = Call(sx)
    if sx.flag("int"):
        x = sx.num("x", -10, 10)
    else:
        x = sx.num("x", -10, 10, kind="float", den=4)
    c.num("X", x)
    mode = sx.choose("mode", ["unbound", "given", "equal"])
    g = sx.num("g", -11, 11)
    c.num("G", g)
    if mode == "unbound":
        status, got, w = c.run("", "%s(X, R)" % act, "R")
        sx.check(status == "ok" and len(got) == 1, "the rounded value")
        r = got[0][0]
        ok = True
    else:
        status, got, w = c.run("", "%s(X, %s)" % (act, "G" if mode == "given" else "R) & (R = G"), "G")
        sx.check(status == "ok", "no error")
        r = g
        ok = len(got) == 1
    d = x - r
    if act == ".floor":
        want = sx.And(sx.le(0, d), sx.lt(d, 1))
    elif act == ".ceil":
        want = sx.And(sx.lt(-1, d), sx.le(d, 0))
    else:
        tie = sx.Or(sx.eq(d * 2, 1), sx.eq(d * 2, -1))
        near = sx.And(sx.le(-1, d * 2), sx.le(d * 2, 1))
        if mode != "unbound":
            sx.check(sx.Implies(sx.Not(tie), sx.Iff(ok, near)), "the rounded value")
            return
        want = near
    sx.check(sx.Iff(ok, want), "the rounded value")
    if mode == "unbound":
        sx.check(norm(r)[1] == "int", "an integer")


KINDS = {  # text: atom literal list number string structure ground
    "X": "0001001", "5": "0001001", "Y + 1": "0001001", "a": "1100011", "~a": "1100011", "f(1)": "0100011", "f(U)": "0100010", "a[s]": "0100011",
    '"a"': "0000101", '""': "0000101", "[]": "0010011", "[1, U]": "0010010", "[1|[2]]": "0010011", "[1|T]": "0010010",
    "[X|[U]]": "0010010", "true": "0000001", "U": "0000000", "A": "1100011", "L": "0010011", "S": "0000101", "B": "0000001", "F": "0100010", "_": "0000000",
    "g([X, h(U)])": "0100010", "1.5": "0001001", "a[m(U)]": "0100010"}
TESTS = [".atom", ".literal", ".list", ".number", ".string", ".structure", ".ground"]


@harness("C20", cases=[{"test": t} for t in TESTS], reach=["the type test"])
def types(sx, test):
    """type tests and .ground, on constants, variables and partly bound terms"""
    c = Call(sx)
    t = sx.choose("term", sorted(KINDS))
    x, y = sx.num("x", -2, 2), sx.num("y", -2, 2)
    c.num("X", x)
    c.num("Y", y)
    neg = sx.flag("negated")
    call = "%s(%s)" % (test, t)
    status, got, w = c.run('A = a & L = [1] & S = "s" & B = true & F = f(V) & ', "not (%s)" % call if neg else call, "U, T, V")
    want = KINDS[t][TESTS.index(test)] == "1"
    if t == "_" and test == ".ground":
        want = False
    sx.check(status == "ok" and len(got) == (1 if want != neg else 0), "the type test")


@harness("C20", quick=[{"n": n_, "act": a_} for n_ in range(4) for a_ in (".findall", ".count", ".sum")],
         thorough=[{"n": n_, "act": a_} for n_ in range(5) for a_ in (".findall", ".count", ".sum")], path_s=40,
         reach=["the aggregate of all solutions"])
def aggregate(sx, n, act):
    """.findall, .count and .sum over beliefs and rules with some arguments bound"""
    c = Call(sx)
    xs = [(sx.num("x", 0, 2), sx.num("y", 0, 2)) for _ in range(n)]
    c.program = "".join("p(%s, %s).\n" % (sx.numeral(a_), sx.numeral(b)) for a_, b in xs)
    c.program += "r(A, C) :- p(A, B) & C = B + 1.\nr(A, 7) :- p(A, _) & A > 0.\n"
    b = sx.num("b", 0, 2)
    c.num("K", b)
    q = sx.choose("query", ["p(A, B)", "p(K, B)", "p(A, A)", "p(_, B)", "r(A, B)", "r(K, B)", "nope(A, B)", "p(f(A), B)"])
    bel = []
    for t in xs:
        if not any(sx.truth(sx.And(sx.eq(t[0], o[0]), sx.eq(t[1], o[1]))) for o in bel):
            bel.append(t)
    if q == "p(A, B)" or q == "p(_, B)":
        sols = bel
    elif q == "p(K, B)":
        sols = [t for t in bel if sx.truth(sx.eq(t[0], b))]
    elif q == "p(A, A)":
        sols = [t for t in bel if sx.truth(sx.eq(t[0], t[1]))]
    elif q.startswith("r"):
        sols = [(x, y + 1) for x, y in bel] + [(x, 7) for x, y in bel if sx.truth(sx.lt(0, x))]
        if "K" in q:
            sols = [t for t in sols if sx.truth(sx.eq(t[0], b))]
    else:
        sols = []
    mode = sx.choose("mode", ["unbound", "given", "ignored"])
    if act == ".count":
        expect(sx, c, "", ".count(%s, %%s)" % q, [len(sols)], mode, label="the aggregate of all solutions")
    elif act == ".sum":
        pat = sx.choose("pattern", ["B", "B * 2 - 1", "1", "K"]) if q not in ("p(A, A)",) else sx.choose("pattern", ["A", "A + K"])
        f = {"B": lambda t: t[1], "B * 2 - 1": lambda t: t[1] * 2 - 1, "1": lambda t: 1, "K": lambda t: b, "A": lambda t: t[0], "A + K": lambda t: t[0] + b}[pat]
        s_ = 0
        for t in sols:
            s_ = s_ + f(t)
        expect(sx, c, "", ".sum(%s, %s, %%s)" % (pat, q), [s_], mode, label="the aggregate of all solutions")
    else:
        bound = "A" if q == "p(A, A)" else "B"
        pat = sx.choose("pattern", [bound, "f(%s, K)" % bound, "[%s|[c]]" % bound, "%s + 1" % bound, "Z", "g(Z, Z)"])
        if mode == "unbound":
            status, got, w = c.run("", ".findall(%s, %s, R)" % (pat, q), "R, A, B, Z")
            sx.check(status == "ok" and len(got) == 1, "the aggregate of all solutions")
            r = list(got[0][0])
            sx.check(len(r) == len(sols), "the aggregate of all solutions")
            k = 0 if bound == "A" else 1
            if "Z" not in pat:
                want = [{bound: t[k], "f(%s, K)" % bound: Literal("f", (t[k], b)), "[%s|[c]]" % bound: (t[k], Literal("c")), "%s + 1" % bound: t[k] + 1}[pat] for t in sols]
                sx.check(rows_equal(sx, [flat(x) for x in r], [flat(x) for x in want], False), "the aggregate of all solutions")
            else:
                vs = [x if isinstance(x, Var) else x.args[0] for x in r]
                sx.check(all(isinstance(v_, Var) for v_ in vs) and all(isinstance(x, Var) or x.args[0] is x.args[1] for x in r), "unbound stays unbound")
            sx.check(all(isinstance(v_, Var) for v_ in got[0][1:]), "no effect on variables")
        else:
            status, got, w = c.run("", ".findall(%s, %s, [%s])" % (pat, q, ", ".join(["_"] * len(sols))), "z")
            sx.check(status == "ok" and len(got) == 1, "the aggregate of all solutions")
            status, got, w = c.run("", ".findall(%s, %s, [%s])" % (pat, q, ", ".join(["_"] * (len(sols) + 1))), "z")
            sx.check(status == "ok" and len(got) == 0, "succeeds with a given result exactly when it is equal")


@harness("C20", reach=["each solution has its own variables"])
def findall_variables(sx):
    """variables unbound in one solution and bound in another"""
    x = sx.num("x", 0, 3)
    order = sx.flag("order")
    c = Call(sx)
    c.program = "o(1, V) :- true.\no(2, %s) :- true.\n" % sx.numeral(x) if order else "o(2, %s) :- true.\no(1, V) :- true.\n" % sx.numeral(x)
    status, got, w = c.run("", ".findall(h(A, B), o(A, B), R)", "R, A, B")
    sx.check(status == "ok" and len(got) == 1 and len(got[0][0]) == 2, "each solution has its own variables")
    r = sorted(got[0][0], key=lambda t: t.args[0])
    sx.check(isinstance(r[0].args[1], Var), "each solution has its own variables")
    sx.check(not isinstance(r[1].args[1], Var) and sx.truth(sx.eq(r[1].args[1], x)), "each solution has its own variables")
    # two solutions with unbound variables can take different values
    c = Call(sx)
    y = sx.num("y", 0, 3)
    c.num("X", x)
    c.num("Y", y)
    c.program = "o(1, V, W) :- true.\no(2, V, V) :- true.\no(3, V, W) :- true.\n"
    status, got, w = c.run("", ".findall(h(A, B, C), o(A, B, C), R) & R = [h(_, X, Y), h(_, Y, D), h(_, Y, X)]", "R, A, B, D")
    sx.check(status == "ok" and len(got) == 1, "each solution has its own variables")
    sx.check(sx.eq(got[0][3], y), "each solution has its own variables")


@harness("C20", reach=["all solutions in order"])
def combined(sx):
    """several actions in one query, backtracking through all of them, again and again"""
    x, y = sx.num("x", 0, 3), sx.num("y", -1, 3)
    c = Call(sx)
    c.num("X", x)
    c.num("Y", y)
    k = sx.choose("which", [0, 1, 2, 3])
    call = [".member(A, [X, Y, 2]) & .range(A, B)", ".range(X, A) & .member(B, [A, Y]) & not (A = B)",
            ".member(A, [X, Y]) & .nth(A, [u, v, w], B)", ".concat([X], [Y], L) & .member(A, L) & .max([A, Y], B)"][k]
    status, got, w = c.run("", call, "A, B")

    def rng(n_):
        out = []
        while len(out) < 6 and sx.truth(sx.lt(len(out), n_)):
            out.append(len(out))
        return out
    if k == 0:
        want = [(m, i) for m in (x, y, 2) for i in rng(m)]
    elif k == 1:
        want = [(i, m) for i in rng(x) for m in (i, y) if not sx.truth(sx.eq(i, m))]
    elif k == 2:
        want = []
        for m in (x, y):
            hit = [j for j in range(3) if sx.truth(sx.eq(m, j))]
            if not hit:
                want = None
                break
            want.append((m, Literal("uvw"[hit[0]])))
    else:
        want = [(m, sx.If(sx.lt(m, y), y, m)) for m in (x, y)]
    if want is None:
        sx.check(status == "error", "wrong arguments are errors")
        return
    sx.check(status == "ok" and len(got) == len(want), "all solutions in order")
    sx.check(sx.And(*[sx.And(sx.same(g[0], t[0]), sx.same(g[1], t[1])) for g, t in zip(got, want)]), "all solutions in order")


class Now(object):
    """One reading of the clock."""

    def __init__(self, sx, k):
        for f, lo, hi in (("year", 1999 + k, 2001 + k), ("month", 1, 12), ("day", 1, 28), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 59), ("microsecond", 0, 2)):
            setattr(self, f, sx.num(f, lo, hi))

    def date(self):
        return self

    def time(self):
        return self


class Clock(object):
    def __init__(self, sx):
        self.sx = sx
        self.read = []
        self.datetime = self.date = self

    def now(self, tz=None):
        self.read.append(Now(self.sx, len(self.read)))
        return self.read[-1]

    today = now


@harness("C20", cases=[{"act": ".date"}, {"act": ".time"}], reach=["the parts of one reading of the clock"])
def clock(sx, act):
    """.date and .time tell the parts of the current date and time"""
    import agentspeak.stdlib
    c = Call(sx)
    fields = ("year", "month", "day") if act == ".date" else ("hour", "minute", "second")
    args, given = [], {}
    for i in range(3):
        k = sx.choose("arg", ["fresh", "given", "shared"] if i else ["fresh", "given"])
        if k == "given":
            given[i] = x = sx.num("g", 0, 30) if fields[i] != "year" else sx.num("g", 1998, 2003)
            args.append(c.num("G%d" % i, x))
        elif k == "fresh":
            args.append("F%d" % i)
        else:
            args.append(args[0])
    t = Clock(sx)
    saved = agentspeak.stdlib.datetime
    agentspeak.stdlib.datetime = t
    try:
        status, got, w = c.run("", act + "(" + ", ".join(args) + ")", ", ".join(args))
    finally:
        agentspeak.stdlib.datetime = saved
    sx.check(status == "ok", "no error")
    sx.assume(len(t.read) == 1)
    want = [getattr(t.read[0], f) for f in fields]
    ok = sx.And(*([sx.eq(given[i], want[i]) for i in given] + [sx.eq(want[0], want[i]) for i in range(1, 3) if args[i] == args[0]]))
    if sx.truth(ok):
        sx.check(len(got) == 1, "the parts of one reading of the clock")
        sx.check(sx.And(*[sx.eq(g, x) for g, x in zip(got[0], want)]), "the parts of one reading of the clock")
    else:
        sx.check(got == [], "succeeds with a given result exactly when it is equal")


@harness("C20", reach=["the agent's own name"])
def own_name(sx):
    """.my_name tells each agent its own name"""
    x = sx.num("x", 0, 2)
    given = sx.choose("given", ["Me", "x1", "x", "f(x)", "Y", "x2"])
    w = World(sx)
    src = "k(" + sx.numeral(x) + ").\n!s.\n+!s : k(X)" + (" & Y = X" if given == "Y" else "") + " <- for (.my_name(" + given + ")) { .rec(" + given + ") }; .rec(done, X).\n"
    w.env.build_agents(agentspeak.StringSource("x.asl", src), 3, w.actions)
    sx.check(w.run() == "ok", "no error")
    recs = {}
    for ag, r in w.out:
        recs.setdefault(ag, []).append(r)
    names = list(w.env.agents)
    for n in names:
        rows = recs[n]
        hit = [r for r in rows if len(r) == 1]
        expected = given == "Me" or given == n
        sx.check(len(hit) == (1 if expected else 0), "the agent's own name")
        for r in hit:
            sx.check(isinstance(r[0], Literal) and r[0].functor == n and r[0].args == (), "the agent's own name")
