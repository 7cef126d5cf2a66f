"""C30: debugging actions show the agent and leave it unchanged."""

import agentspeak.runtime
import agentspeak.stdlib

from symx.api import harness
from .c07 import RefLexer, split_lines
from .c08 import RefParser
from .c27 import COLOUR, File
from .prog import *

BOUNDS = {
    "quick": "agents with 0-3 beliefs out of 9 kinds (symbolic numbers in [0,2], strings, atoms, plain and linked lists, annotations, nested literals) and rules and plan contexts built of 14 kinds of conditions with up to 2 connectives (&, |, not); .dump, .control_flow or Agent.dump called in a step, context, rule, loop, branch or subgoal, before, between or after 5 kinds of steps",
    "thorough": "as quick with 3 connectives and beliefs of all kinds together"}
OUTSIDE = ["the layout of control_flow.dot", "the log messages between the sections of .dump", "the lines about intentions"]
ASSUMPTIONS = ["print and open are replaced by stand-ins that record what they are given"]


class Out(object):
    def __init__(self, sx):
        self.sx = sx
        self.lines = []
        self.files = {}

    def print(self, *args, file=None, **kw):
        text = ""
        for i, t in enumerate(args):
            if not isinstance(t, str) and type(t).__name__ != "SStr":
                t = self.sx.str(t)
            text = text + (" " if i else "") + t
        if file is None:
            self.lines.append(text)

    def open(self, name, mode="r"):
        assert mode[0] == "w"
        self.files[name] = f = File()
        f.close = lambda: None
        return f

    def __enter__(self):
        agentspeak.runtime.print = agentspeak.stdlib.print = self.print
        agentspeak.stdlib.open = self.open
        return self

    def __exit__(self, *exc):
        del agentspeak.runtime.print, agentspeak.stdlib.print, agentspeak.stdlib.open


def tree(sx, text):
    lines = split_lines(sx, text)
    want, illegal = RefLexer(sx).scan(lines)
    if illegal:
        return None
    p = RefParser([(k, lines[n_ - 1][i:j]) for k, n_, i, j in want])
    try:
        t = p.expr()
    except Exception:
        return None
    return t if p.k is None else None


def alike(sx, a_, b, names):
    """The trees are the same up to a renaming of variables."""
    if not isinstance(a_, tuple) or not isinstance(b, tuple):
        return sx.same(a_, b)
    if a_ and a_[0] == "var":
        if not b or b[0] != "var":
            return False
        x, y = str(a_[1]), str(b[1])
        if x == "_" or y == "_":
            return x == y
        if x in names or y in names.values():
            return names.get(x) == y
        names[x] = y
        return True
    if a_ and a_[0] == "num":
        return b[0] == "num" and sx.same(a_[1], b[1])
    if len(a_) != len(b):
        return False
    r = True
    for x, y in zip(a_, b):
        r = sx.And(r, alike(sx, x, y, names))
        if r is False:
            return False
    return r


CONDS = ["p(X)", "not p(X)", "X < N0", "X = Y", "q(X, f(Y))[a]", "true", "false", ".substring(\"a\", \"b\")", "X", "p(X + N0)", "X == -Y", "[X|Y] = L", "~n(\"x y\")", "X mod 2 \\== Y"]
CONNECT = ["% & %", "% | %", "not (%)", "not %", "(% | %) & %"]


def condition(sx, depth, x, top=None):
    top = top or depth
    text = sx.choose("connect", ["%"] + CONNECT) if depth else "%"
    parts = text.split("%")
    out = parts[0]
    n = 0
    for q in parts[1:]:
        if depth > 1 and n == 0 and text != "%":
            c = condition(sx, depth - 1, x, top)
            if text != "not (%)":
                c = "(" + c + ")"
        else:
            c = sx.choose("c", CONDS if top == 1 and n == 0 else CONDS[1:5] if n == 0 else CONDS[:4:3])
            i = c.find("N0")
            if i >= 0:
                c = c[:i] + sx.numeral(x) + c[i + 2:]
        out = out + c + q
        n += 1
    return out


def folds(t):
    """A truth value as an operand: simplified while loading (C09)."""
    if not isinstance(t, tuple):
        return False
    if t and t[0] in ("un", "bin") and any(isinstance(x, tuple) and x and x[0] == "const" for x in t[2:]):
        return True
    return any(folds(x) for x in t)


REACH = ["rules are shown as they are", "plans are shown with their heads and contexts"]


@harness("C30", quick=[{"depth": 1}, {"depth": 2}], thorough=[{"depth": 3}], path_s=30, reach=REACH)
def conditions(sx, depth):
    """rules and contexts read back as they were written, up to the names of variables"""
    x = sx.num("x", 0, 2)
    cond = condition(sx, depth, x)
    sx.assume(not folds(tree(sx, cond)))
    head = sx.choose("head", ["r", "r(X)", "r(Y, [X|L])[a]"] if depth == 1 else ["r(Y, [X|L])[a]"])
    trigger = sx.choose("trigger", ["+!", "-", "+?"] if depth == 1 else ["+!"])
    w = World(sx)
    rule = head + " :- " + cond
    with Capture():
        ag = w.build(rule + ".\n" + trigger + head + " : " + cond + " <- a.\n+!t : first.\n+!t : second.\n")
    with Out(sx) as out, Capture():
        ag.dump()
    sx.check(len(out.lines) == 4, "rules are shown as they are")
    want = tree(sx, head + " & (" + cond + ")")
    got = out.lines[0]
    i = got.find(" :- ")
    sx.check(i > 0, "rules are shown as they are")
    sx.check(alike(sx, want, tree(sx, got[:i] + " & (" + got[i + 4:] + ")"), {}), "rules are shown as they are")
    lines = [l for l in out.lines[1:] if not sx.truth(sx.same(l[:6], "* +!t "))]
    others = [l for l in out.lines[1:] if sx.truth(sx.same(l[:6], "* +!t "))]
    sx.check(len(others) == 2 and sx.truth(sx.And(sx.same(others[0], "* +!t : first <- ... ."), sx.same(others[1], "* +!t : second <- ... ."))), "plans are shown with their heads and contexts")
    sx.check(len(lines) == 1, "plans are shown with their heads and contexts")
    got = lines[0]
    start, end = "* " + trigger, " <- ... ."
    sx.check(sx.And(sx.same(got[:len(start)], start), sx.same(got[len(got) - len(end):], end)), "plans are shown with their heads and contexts")
    got = got[len(start):len(got) - len(end)]
    i = got.find(" : ")
    sx.check(i > 0, "plans are shown with their heads and contexts")
    sx.check(alike(sx, want, tree(sx, got[:i] + " & (" + got[i + 3:] + ")"), {}), "plans are shown with their heads and contexts")


FACTS = ["p(%)", "p(%, \"a b\")", "q([%, [a]])", "q([%|[b]])", "~n", "s(f(%), g)[a(%), b]", "s(-%)", "t(true, \"\\\"x\\\\\")", "u[self(%)]"]


@harness("C30", quick=[{"n": 2}], thorough=[{"n": 3}], path_s=30, reach=["each belief once"])
def beliefs(sx, n):
    """each belief is shown exactly once and reads back"""
    x = sx.num("x", 0, 2)
    N = sx.numeral(x)
    src = ""
    for i in range(n):
        parts = sx.choose("f", FACTS).split("%")
        t = parts[0]
        for q in parts[1:]:
            t = t + N + q
        src = src + t + ".\n"
    w = World(sx)
    with Capture():
        ag = w.build(src + sx.choose("more", ["", "!s.\n+!s <- -p(_); +p(7)[c].\n"]))
    sx.check(w.run() in ("ok", "error"), "each belief once")
    have = [b for bs in ag.beliefs.values() for b in bs]
    with Out(sx) as out, Capture():
        ag.dump()
    w2 = World(sx)
    text = ""
    k = len(have)
    sx.check(len(out.lines) == k + sum(1 for ps in ag.plans.values() for p in ps), "each belief once")
    for l in out.lines[:k]:
        text = text + l + ".\n"
    with Capture():
        ag2 = w2.build(text)
    again = [b for bs in ag2.beliefs.values() for b in bs]
    sx.check(len(again) == k and rows_equal(sx, [row_norm((b,)) for b in again], [row_norm((b,)) for b in have], False), "each belief once")


WHERE = {"step": "%; ", "if": "if (p(_)) { % } else { % }; ", "loop": "for (p(Z)) { % }; ", "none": ""}
ASK = [".dump", ".control_flow"]


@harness("C30", quick=[{"ask": a_, "n": 2} for a_ in ASK], thorough=[{"ask": a_, "n": 3} for a_ in ASK], path_s=30, reach=["the agent behaves as without asking"])
def unchanged(sx, ask, n):
    """the same program with and without the action behaves the same"""
    x, y = sx.num("x", 0, 2), sx.num("y", 0, 2)
    N = sx.numeral
    at = [sx.choose("where", sorted(WHERE)) for _ in range(n)]
    place = sx.choose("place", ["none", "context", "rule", "subgoal"])
    steps = [sx.choose("step", ["?p(X)", "!t(X)", "+p(X)", "-p(_)", "?q(X)"]) for _ in range(n - 1)]
    got = []
    for on in (True, False):
        call = ask if on else "true"
        text = "+!s : q(Y)%s <- " % (" & " + call if place == "context" else "")
        for i in range(n):
            text = text + WHERE[at[i]].replace("%", call) + (steps[i] + "; .rec(X); " if i < n - 1 else "")
        text = text + ".rec(X, Y).\n"
        src = "p(" + N(x) + "). p(" + N(y) + ").\nq(" + N(y) + ").\n"
        src = src + "q(X) :- not (p(X) & p(5))" + (" & " + call if place == "rule" else "") + " & X = 3.\n!s.\n" + text
        src = src + "+!t(A) : q(A) <- " + (call + "; " if place == "subgoal" else "") + ".rec(sub, A).\n+p(X) <- .rec(event, X).\n"
        w = World(sx)
        with Out(sx) as out, Capture():
            ag = w.build(src)
            status = w.run()
        got.append((status, w.recs(), [b for bs in ag.beliefs.values() for b in bs], out))
    (s1, r1, b1, out), (s2, r2, b2, _) = got
    sx.check(s1 == s2, "the agent behaves as without asking")
    sx.check(len(r1) == len(r2) and rows_equal(sx, [row_norm(r) for r in r1], [row_norm(r) for r in r2], True), "the agent behaves as without asking")
    sx.check(len(b1) == len(b2) and rows_equal(sx, [row_norm((b,)) for b in b1], [row_norm((b,)) for b in b2], False), "the agent behaves as without asking")


@harness("C30", path_s=30, reach=["every variable is unbound", "nothing else is changed"])
def unbind(sx):
    """.unbind_all leaves every variable of the plan unbound and changes nothing else"""
    x, y = sx.num("x", 0, 2), sx.num("y", 0, 2)
    N = sx.numeral
    how = sx.choose("how", ["step", "loop", "if", "subgoal"])
    body = {"step": ".unbind_all; .rec(A, X, Y)", "loop": "for (p(X)) { .rec(X); .unbind_all; .rec(A, X, Y) }; .rec(fin)",
            "if": "if (p(A)) { .unbind_all }; .rec(A, X, Y)", "subgoal": "!t(A); .rec(A, X, Y)"}[how]
    src = "p(" + N(x) + "). p(" + N(y) + ").\n!s(" + N(x) + ").\n+!s(A) <- Y = A; X = Y; " + body.replace("A, X, Y", "A, X, Y, [A]") if how != "loop" else \
        "p(" + N(x) + "). p(" + N(y) + ").\n!s(" + N(x) + ").\n+!s(A) <- Y = A; " + body
    w = World(sx)
    ag = w.build(src + ".\n+!t(B) <- .unbind_all; .rec(B).\n")
    sx.check(w.run() == "ok", "nothing else is changed")
    rows = w.recs()
    free = [r for r in rows if len(r) >= 3 or how == "subgoal" and len(r) == 1]
    if how == "subgoal":
        sx.check(len(rows) == 2 and isinstance(rows[0][0], Var), "every variable is unbound")
        sx.check(sx.And(*[sx.eq(v, x) for v in rows[1][:3]]), "nothing else is changed")
    elif how == "loop":
        n_ = 1 if sx.truth(sx.eq(x, y)) else 2
        sx.check(len(rows) == 2 * n_ + 1, "nothing else is changed")
        for r in rows[1:-1:2]:
            sx.check(all(isinstance(v, Var) for v in r), "every variable is unbound")
        vals = [r[0] for r in rows[:-1:2]]
        sx.check(sx.And(*[sx.Or(sx.eq(v, x), sx.eq(v, y)) for v in vals]), "nothing else is changed")
        sx.check(n_ == 1 or sx.Not(sx.eq(vals[0], vals[1])), "nothing else is changed")
    else:
        sx.check(len(rows) == 1, "nothing else is changed")
        sx.check(all(isinstance(v, Var) for v in rows[0][:3]) and len(set(id(v) for v in rows[0][:3])) == 3, "every variable is unbound")
    have = [b for bs in ag.beliefs.values() for b in bs]
    sx.check(rows_equal(sx, [row_norm((b,)) for b in have], [row_norm((Literal("p", (x,)),))] + ([] if sx.truth(sx.eq(x, y)) else [row_norm((Literal("p", (y,)),))]), False), "nothing else is changed")
