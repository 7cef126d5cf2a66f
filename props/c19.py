"""C19: agents are isolated and get unique valid names."""

import agentspeak.runtime

from symx.api import harness
from .prog import *

BOUNDS = {
    "quick": "requested names and source names of 0-3 symbolic characters out of 30 representative ones (letters, digits, '_', '-', '.', '/', space, letters and digits outside of ASCII), all 12 keywords with symbolic suffixes, up to 4 agents with equal, colliding or reserved names; 2-3 agents built from one program by build_agents or repeated build_agent, 1-2 symbolic operations out of 12 on them, each agent compared with a lone agent that undergoes the same operations",
    "thorough": "names of up to 5 characters and of all code points up to U+024F; 3 operations"}
OUTSIDE = ["operations in which agents address each other (C17, C18)", "agents deleted from the environment by the host"]
ASSUMPTIONS = []

KEYWORDS = ["true", "false", "not", "div", "mod", "if", "else", "while", "for", "include", "begin", "end"]
ALPHA = "abezABZ019_-. /~\u00e9\u00c9\u00df\u00b2\u0130\u01c5\u0660\u2163\u3042\ufb01\t\"(@"


def lower(sx, c):
    return sx.And(sx.le("a", c), sx.le(c, "z"))


def char_in(sx, c, ranges):
    """The one-character text c is in one of the ranges of code points."""
    o = code(sx, c)
    return sx.Or(*[sx.And(sx.le(ord(a_), o), sx.le(o, ord(b_))) for a_, b_ in ranges])


def code(sx, c):
    if isinstance(c, str) and not hasattr(c, "cs") and type(c) is str:
        return ord(c)
    from symx.values import SymNum
    return SymNum(c.c[0], "int") if not isinstance(c.c[0], int) else c.c[0]


def valid(sx, name):
    """The name is an identifier that can be written as a functor in programs."""
    if len(name) == 0:
        return False
    conds = [char_in(sx, name[0:1], [("a", "z")])]
    for i in range(1, len(name)):
        conds.append(char_in(sx, name[i:i + 1], [("a", "z"), ("A", "Z"), ("0", "9"), ("_", "_")]))
    conds += [sx.Not(sx.eq(name, k)) for k in KEYWORDS]
    return sx.And(*conds)


def make(sx, env, how, name):
    src = "p(1)."
    if how == "name":
        return [env.build_agent(agentspeak.StringSource("x.asl", src), agentspeak.stdlib.actions, name=name)]
    if how == "source":
        return [env.build_agent(agentspeak.StringSource(name, src), agentspeak.stdlib.actions)]
    if how == "agents":
        return env.build_agents(agentspeak.StringSource("x.asl", src), 2, agentspeak.stdlib.actions, name=name)
    return env.build_agents(agentspeak.StringSource(name, src), 2, agentspeak.stdlib.actions)


@harness("C19", quick=[{"n": n_, "how": h} for n_ in (1, 2, 3) for h in ("name", "source")] + [{"n": 2, "how": "agents"}, {"n": 2, "how": "agents source"}],
         thorough=[{"n": n_, "how": h} for n_ in (1, 2, 3, 4, 5) for h in ("name", "source", "agents", "agents source")],
         path_s=60, reach=["usable as a name", "derived from the requested name"])
def names(sx, n, how):
    """any requested name gives a valid one; a valid one is used as it is"""
    text = sx.text("name", n, ALPHA)
    env = agentspeak.runtime.Environment()
    ags = make(sx, env, how, text)
    for i, ag in enumerate(ags):
        sx.check(valid(sx, ag.name), "usable as a name")
        for o in ags[:i]:
            sx.check(sx.Not(sx.eq(o.name, ag.name)), "distinct")
    sx.check(sx.Implies(valid(sx, text), sx.eq(ags[0].name, text)), "derived from the requested name")


@harness("C19", thorough=[{"n": 1}, {"n": 2}], quick=[{"n": 1}], path_s=60)
def wide(sx, n):
    """the same for every code point up to U+024F"""
    text = sx.text("name", n, maxcp=0x24f, exclude=[(0, 0)])
    env = agentspeak.runtime.Environment()
    ags = make(sx, env, "name", text)
    sx.check(valid(sx, ags[0].name), "usable as a name")
    sx.check(sx.Implies(valid(sx, text), sx.eq(ags[0].name, text)), "derived from the requested name")


@harness("C19", cases=[{"how": h} for h in ("name", "source")])
def keywords(sx, how):
    """reserved words are not used as names; words starting with them are"""
    kw = sx.choose("keyword", KEYWORDS)
    n_ = sx.choose("n", [0, 1])
    tail = sx.text("tail", n_, "aZ0_-.")
    text = kw + tail
    env = agentspeak.runtime.Environment()
    ags = make(sx, env, how, text) + make(sx, env, how, text)
    for ag in ags:
        sx.check(valid(sx, ag.name), "usable as a name")
        sx.check(ag.name.startswith(kw), "derived from the requested name")
    sx.check(sx.Not(sx.eq(ags[0].name, ags[1].name)), "distinct")
    sx.check(sx.Implies(valid(sx, text), sx.eq(ags[0].name, text)), "derived from the requested name")


NAMES = ["a", "a1", "a2", "A", "a.asl", "a-1", "dir/a.asl", "a11", "true", "true_", "", "1", "agent"]


@harness("C19", reach=["distinct"])
def many(sx):
    """names of several agents, requested equal or made equal by the derivation"""
    env = agentspeak.runtime.Environment()
    ags = []
    for i in range(3):
        how = sx.choose("how", ["name", "agents"]) if i == 0 else "name"
        ags += make(sx, env, how, sx.choose("name", NAMES))
    got = [ag.name for ag in ags]
    sx.check(len(set(got)) == len(got), "distinct")
    for ag in ags:
        sx.check(env.agents[ag.name] is ag, "registered under its name")
        sx.check(valid(sx, ag.name), "usable as a name")
    sx.check(len(env.agents) == len(got), "registered under its name")


PROGRAM = """
p(1). p(2)[m]. q(a, [1, 2]). cnt(0).
r(X) :- p(X) & not s(X).
d(X) :- p(X).
!start.
+!start <- .rec(start); -+cnt(5); .rec(started).
@first +!g(X) : s(X) <- .rec(special, X).
@second +!g(X) <- .rec(g, X); +w(X).
+!h(X) <- for (r(Y)) { .rec(Y, X) }.
+!wait(X) <- .wait("+e"); .rec(woken, X).
+p(X) <- .rec(new, X).
-p(X) <- .rec(gone, X).
+!loop(X) <- if (cnt(C) & C > X) { -+cnt(C - 1); !loop(X) } else { .rec(C) }.
"""
T, G = agentspeak.Trigger, agentspeak.GoalType


def op(sx, name):
    """One operation as a function of an agent."""
    k = sx.choose(name, ["add belief", "remove belief", "goal g", "goal h", "goal wait", "goal loop", "event", "plan", "rule", "forget", "abolish", "bind"])
    x = sx.num(name + "x", 0, 3)

    def I():
        return agentspeak.runtime.Intention()

    def f(w, ag):
        lit = lambda fn, *args: Literal(fn, args)
        if k == "add belief":
            ag.call(T.addition, G.belief, lit("p", x), I())
            ag.call(T.addition, G.belief, lit("s", x), I())
        elif k == "remove belief":
            ag.call(T.removal, G.belief, lit("p", x), I())
        elif k.startswith("goal"):
            ag.call(T.addition, G.achievement, lit(k[5:], x), I(), delayed=True)
        elif k == "event":
            ag.call(T.addition, G.belief, lit("e"), I())
        elif k == "plan":
            ag.call(T.addition, G.tellHow, lit("plain_text", "@third +!k(X) <- .print(X)."), I())
            ag.call(T.addition, G.tellHow, lit("plain_text", "+!g(X) : not s(X) <- -+cnt(X)."), I())
        elif k == "rule":
            v_ = Var()
            ag.add_rule(agentspeak.runtime.Rule(lit("r", v_), agentspeak.runtime.TermQuery(lit("cnt", v_))))
        elif k == "forget":
            ag.call(T.removal, G.tellHow, lit("plain_text", "@first"), I())
        elif k == "abolish":
            for b in list(ag.beliefs[("p", 1)]):
                ag.remove_belief(b, I())
        elif k == "bind":
            ag.call(T.addition, G.achievement, Literal("h", (Var(),)), I(), delayed=True)
    return f


def state(w, ag):
    from symx.api import norm, flat_ll
    bel = [flat_ll(norm(b)) for bs in ag.beliefs.values() for b in bs]
    recs = [row_norm(r) for r in w.recs(ag.name)]
    plans = sorted((k[0].value, k[1].value, k[2], k[3], len(v_), [str(p.annotation) for p in v_]) for k, v_ in ag.plans.items() if v_)
    rules = sorted((k, len(v_)) for k, v_ in ag.rules.items() if v_)
    return bel, recs, plans, rules, len([s for s in ag.intentions if s])


@harness("C19", quick=[{"how": h, "ops": n_} for h in ("agents", "repeated", "mixed") for n_ in (1,)] + [{"how": "agents", "ops": 2}],
         thorough=[{"how": h, "ops": n_} for h in ("agents", "repeated", "mixed") for n_ in (1, 2, 3)], path_s=30,
         reach=["each behaves as a lone agent"])
def isolation(sx, how, ops):
    """agents built from one program behave as lone agents do, whatever is done to others"""
    w = World(sx)
    src = lambda: agentspeak.StringSource("ag.asl", PROGRAM)
    k = 2 if ops > 1 else 3
    if how == "agents":
        ags = w.env.build_agents(src(), k, w.actions)
    elif how == "repeated":
        ags = [w.env.build_agent(src(), w.actions) for _ in range(k)]
    else:
        ags = [w.env.build_agent(src(), w.actions)] + w.env.build_agents(src(), k - 1, w.actions)
    if ops < 2 and sx.flag("run first"):
        sx.check(w.run() == "ok", "no error")
    todo = []
    for i in range(ops):
        todo.append((sx.choose("target", list(range(k))) if ops < 3 else i % k, op(sx, "op%d" % i)))
    for t, f in todo:
        f(w, ags[t])
    sx.check(w.run() == "ok", "no error")
    for i, ag in enumerate(ags):
        w1 = World(sx)
        lone = w1.env.build_agent(src(), w1.actions)
        for t, f in todo:
            if t == i:
                f(w1, lone)
        sx.check(w1.run() == "ok", "no error")
        s1, s2 = state(w, ag), state(w1, lone)
        sx.check(rows_equal(sx, s1[0], s2[0], False), "each has its own beliefs")
        # beliefs are a set: the order in which loops visit them is not defined
        sx.check(rows_equal(sx, s1[1], s2[1], False), "each behaves as a lone agent")
        sx.check(s1[2:] == s2[2:], "each has its own plans, rules and intentions")


@harness("C19", cases=[{"how": h} for h in ("agents", "repeated")], reach=["the same start"])
def equal_start(sx, how):
    """all start with the same beliefs, rules, plans and goals as a lone agent; nothing mutable is shared"""
    w = World(sx)
    x = sx.num("x", 0, 3)
    text = PROGRAM + "p(%s). !g(%s). !h(%s). b(%s) :- p(X) & X < %s.\n" % ((sx.numeral(x),) * 5)
    k = sx.choose("k", [1, 2, 3])
    src = lambda: agentspeak.StringSource("ag.asl", text)
    ags = w.env.build_agents(src(), k, w.actions) if how == "agents" else [w.env.build_agent(src(), w.actions) for _ in range(k)]
    sx.check(len(ags) == k and len(w.env.agents) == k, "as many agents as requested")
    w1 = World(sx)
    lone = w1.env.build_agent(src(), w1.actions)
    for phase in ("built", "run"):
        if phase == "run":
            sx.check(w.run() == w1.run(), "the same start")
        s2 = state(w1, lone)
        for ag in ags:
            s1 = state(w, ag)
            sx.check(rows_equal(sx, s1[0], s2[0], False), "the same start")
            sx.check(rows_equal(sx, s1[1], s2[1], False), "the same start")
            sx.check(s1[2:] == s2[2:], "the same start")
    for i, ag in enumerate(ags):
        for o in ags[:i]:
            sx.check(ag.beliefs is not o.beliefs and ag.plans is not o.plans and ag.rules is not o.rules and ag.intentions is not o.intentions, "own state")
            for d1, d2 in ((ag.beliefs, o.beliefs), (ag.plans, o.plans), (ag.rules, o.rules)):
                ids = set(id(c) for c in d1.values())
                sx.check(not any(id(c) in ids for c in d2.values()), "own state")
