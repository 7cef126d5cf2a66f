"""C21: registered Python actions."""

import agentspeak.runtime
from agentspeak.runtime import Agent, Environment
from agentspeak import asl_str

from symx.api import harness
from .prog import *

BOUNDS = {
    "quick": "chains of up to 3 collections, each with any subset of 2 names registered for arities 0..3 or variadic (symbolic choice), calls of arity 0..3 in bodies, contexts, rules, negations and conditions; functions, predicates and procedures with up to 3 declared types (any, int, float, str(), tuple, classes, agent, environment in every position), arguments from symbolic numbers -3..3 (ints and quarters), booleans, strings, atoms, structures, plain and linked lists, computed and bound variables",
    "thorough": "the same with arguments -30..30 and 4 declared types"}
OUTSIDE = ["conversions that Python itself refuses (they are reported as errors, C24)", "actions that mutate their arguments"]
ASSUMPTIONS = []

PLACES = {
    "body": "!s0.\n+!s0 <- !s.\n+!s <- %s; .rec(fin).\n",
    "context": "!s0.\n+!s0 <- !s.\n+!s : %s <- .rec(fin).\n+!s <- .rec(no).\n",
    "rule": "r :- %s.\n!s0.\n+!s0 <- !s.\n+!s : r <- .rec(fin).\n+!s <- .rec(no).\n",
    "not": "!s0.\n+!s0 <- !s.\n+!s : not (%s) <- .rec(no).\n+!s <- .rec(fin).\n",
    "if": "!s0.\n+!s0 <- !s.\n+!s <- if (%s) { .rec(fin) } else { .rec(no) }.\n",
    "for": "!s0.\n+!s0 <- !s.\n+!s <- for (%s) { .rec(fin) }.\n",
    "and": "!s0.\n+!s0 <- !s.\n+!s <- true & (%s); .rec(fin).\n",
}


def warnings(cap):
    return [1 for level, _ in cap.records if level == "WARNING"]


def build(w, src, actions):
    return w.env.build_agent(agentspeak.StringSource("ag.asl", src), actions)


@harness("C21", quick=[{"depth": d, "arity": k} for d in (1, 2) for k in range(3)] + [{"depth": 3, "arity": 1}],
         thorough=[{"depth": d, "arity": k} for d in (1, 2, 3) for k in range(4)], path_s=30,
         reach=["the right implementation is called", "an unregistered name is a belief query"])
def dispatch(sx, depth, arity):
    """the implementation for exactly the name and arity, then the variadic one, own
    collection first, then the parents"""
    w = World(sx)
    place = sx.choose("place", sorted(PLACES)) if depth == 1 else "body"
    calls = []

    def impl(tag):
        def f(agent, term, intention):
            calls.append((tag, len(term.args), agent.name))
            yield
        return f
    chain, parent = [], w.actions
    near = sorted(set([arity, arity + 1, max(arity - 1, 0)]))
    for d in range(depth):
        coll = agentspeak.Actions(parent)
        reg = []
        for k in near + ["*"]:
            if (depth < 3 or k in (arity, "*")) and sx.flag("reg%s" % k):
                coll.add(".f", None if k == "*" else k, impl((d, k)))
                reg.append(k)
        if sx.flag("otherarity"):
            coll.add(".ff", arity, impl((d, "other name")))
        chain.append(reg)
        parent = coll
    want = None
    for d in reversed(range(depth)):
        if arity in chain[d]:
            want = (d, arity)
            break
        if "*" in chain[d]:
            want = (d, "*")
            break
    call = ".f" + ("(%s)" % ", ".join(["1"] * arity) if arity else "")
    have = sx.flag("belief")
    with Capture() as cap:
        ag = build(w, PLACES[place] % call, parent)
        warned = len(warnings(cap)) > 0
    if have:
        ag.add_belief(Literal(".f", tuple([1] * arity)), {})
    status = w.run()
    tags = [r[0].functor for r in w.recs()]
    if want is None:
        sx.check(warned, "an unregistered name causes a warning")
        sx.check(not calls, "nothing else is called")
        ok = have
    else:
        sx.check(not warned, "no warning")
        sx.check(calls == [(want, arity, "ag")], "the right implementation is called")
        ok = True
    plain = place in ("body", "and")
    sx.check(status == ("error" if plain and not ok else "ok"), "an unregistered name is a belief query")
    if not plain and place != "for":
        sx.check(tags == (["fin"] if ok else ["no"]), "an unregistered name is a belief query")
    else:
        sx.check(tags == (["fin"] if ok else []), "an unregistered name is a belief query")


@harness("C21", reach=["registering twice is refused"])
def twice(sx):
    """registering the same name and arity twice is refused, in any style; parents do not matter"""
    def reg(coll, style, k):
        f = lambda *args: 1
        if style == "add":
            coll.add(".f", k, f)
        elif style == "decorator":
            coll.add(".f", k)(f)
        elif style == "function":
            coll.add_function(".f", (None,) * (k - 1), f)
        elif style == "function decorator":
            coll.add_function(".f", (None,) * (k - 1))(f)
        elif style == "predicate":
            coll.add_predicate(".f", (None,) * k, f)
        elif style == "procedure":
            coll.add_procedure(".f", (None,) * k, f)
        elif style == "with agent":
            coll.add_procedure(".f", (Agent,) + (None,) * k + (Environment,), f)
        elif style == "variadic":
            coll.add(".f", None, f)
    styles = ["add", "decorator", "function", "function decorator", "predicate", "procedure", "with agent", "variadic"]
    a_, b_ = sx.choose("first", styles), sx.choose("second", styles)
    ka, kb = sx.choose("ka", [1, 2]), sx.choose("kb", [1, 2])
    parent = agentspeak.Actions()
    child = agentspeak.Actions(parent) if sx.flag("child") else None
    reg(parent, a_, ka)
    key = lambda style, k: "*" if style == "variadic" else k
    clash = child is None and key(a_, ka) == key(b_, kb)
    first = parent.lookup(".f", ka)
    try:
        reg(child or parent, b_, kb)
        refused = False
    except Exception:
        refused = True
    sx.check(refused == clash, "registering twice is refused")
    sx.check(child is not None or key(a_, ka) == "*" and key(b_, kb) == ka or parent.lookup(".f", ka) is first, "the first registration stays")


def values(sx, name, R):
    """(source text, expected python value) of an argument."""
    x = sx.num(name, -R, R)
    q = sx.num(name + "q", -R, R, kind="float", den=4)
    k = sx.choose(name + "kind", ["int", "float", "sum", "bool", "string", "numstring", "atom", "structure", "list", "linked", "var", "unbound"])
    N = lambda z: "(%s)" % sx.numeral(z)
    if k == "int":
        return "V%s" % name, x, x
    if k == "float":
        return "V%s" % name, q, q
    if k == "sum":
        return "V%s + 1" % name, x, x + 1
    if k == "bool":
        return "true", None, True
    if k == "string":
        return '"a b"', None, "a b"
    if k == "numstring":
        return '"12"', None, "12"
    if k == "atom":
        return "foo", None, Literal("foo")
    if k == "structure":
        return "foo(V%s, [1])[s]" % name, x, Literal("foo", (x, (1,)), frozenset([Literal("s")]))
    if k == "list":
        return "[V%s, [b]]" % name, x, (x, (Literal("b"),))
    if k == "linked":
        return "[V%s|[b]]" % name, x, (x, Literal("b"))
    if k == "var":
        return "V%s" % name, x, x
    return "U%s" % name, None, "unbound"


class Unconvertible(Exception):
    pass


def convert(sx, spec, kind, v):
    """The argument as the declared type."""
    num = not isinstance(v, (bool, str, tuple, Literal)) and kind != "unbound"
    if spec is None:
        return v
    if kind == "unbound":
        if spec is asl_str:
            return "text"
        raise Unconvertible()
    if spec is int:
        if num:
            if kind == "float":
                return "trunc"
            return v
        if v is True:
            return 1
        if v == "12":
            return 12
        raise Unconvertible()
    if spec is float:
        if num:
            return v
        if v is True:
            return 1.0
        if v == "12":
            return 12.0
        raise Unconvertible()
    if spec is tuple:
        if isinstance(v, tuple):
            return v
        if isinstance(v, str):
            return tuple(v)
        raise Unconvertible()
    if spec is asl_str:
        if isinstance(v, str):
            return v
        if v is True:
            return "true"
        if isinstance(v, Literal) and not v.args:
            return v.functor
        return "text"
    if isinstance(v, bool) or num:
        raise Unconvertible()
    if not isinstance(v, spec):
        raise Unconvertible()
    return v


SPECS = {"any": None, "int": int, "float": float, "text": asl_str, "tuple": tuple, "literal": Literal, "str": str}


@harness("C21", quick=[{"style": s, "n": n_} for s in ("function", "predicate", "procedure") for n_ in (1, 2)],
         thorough=[{"style": s, "n": n_} for s in ("function", "predicate", "procedure") for n_ in (1, 2, 3)], path_s=30,
         reach=["the converted arguments", "the agent and the environment"])
def arguments(sx, style, n):
    """declared types, agents and environments in every position"""
    w = World(sx)
    got = []
    args, specs, want, kinds = [], [], [], []
    bad = False
    pre = []
    for i in range(n):
        spec = sx.choose("spec%d" % i, sorted(SPECS)) if n == 1 or i == 0 else sx.choose("spec%d" % i, ["any", "int"])
        text, sym, v = values(sx, "a%d" % i, 3) if i == 0 else ("Va%d" % i, None, None)
        if i > 0:
            sym = v = sx.num("b%d" % i, -3, 3)
        kind = "int"
        if sym is not None and type(sym) is not int:
            kind = "float" if getattr(sym, "kind", None) == "float" or isinstance(sym, float) else "int"
        if v == "unbound" and isinstance(v, str) and text.startswith("U"):
            kind = "unbound"
        if sym is not None:
            pre.append("va%d(%s)" % (i, show_num(sx, sym)))
        try:
            want.append(convert(sx, SPECS[spec], kind, v))
        except Unconvertible:
            bad = True
        specs.append(SPECS[spec])
        kinds.append((kind, v))
        args.append(text)
    where = sx.choose("extra", ["none", "agent first", "env last", "both", "agent between"])
    full = list(specs)
    ex = {}
    if where in ("agent first", "both"):
        full.insert(0, Agent)
    if where in ("env last", "both"):
        full.append(Environment)
    if where == "agent between":
        full.insert(1, Agent)
    res = sx.num("res", 0, 2)

    def f(*a_):
        got.append(a_)
        return {"function": res, "predicate": True, "procedure": None}[style]
    coll = agentspeak.Actions(w.actions)
    {"function": coll.add_function, "predicate": coll.add_predicate, "procedure": coll.add_procedure}[style](".g", tuple(full), f)
    src = "!s.\n" + "".join(p + ".\n" for p in pre)
    query = "".join("va%d(Va%d) & " % (int(p[2]), int(p[2])) for p in pre) + "true"
    src += "+!s : %s <- .g(%s%s); .rec(fin%s).\n" % (query, ", ".join(args), ", R" if style == "function" else "", ", R" if style == "function" else "")
    other = build(w, "", coll)
    ag = build(w, src, coll)
    status = w.run()
    if bad:
        sx.check(status == "error" and not got and not w.recs(), "unsuitable arguments are errors")
        return
    sx.check(status == "ok" and len(w.recs()) == 1 and len(got) == 1, "called once")
    a_ = list(got[0])
    sx.check(len(a_) == len(full), "the agent and the environment")
    rest = []
    for spec, v in zip(full, a_):
        if spec is Agent:
            sx.check(v is ag, "the agent and the environment")
        elif spec is Environment:
            sx.check(v is w.env, "the agent and the environment")
        else:
            rest.append(v)
    from symx.api import norm, flat_ll
    for spec, v, e, (kind, orig) in zip(specs, rest, want, kinds):
        if kind == "unbound" and spec is None:
            sx.check(isinstance(v, Var), "the converted arguments")
        elif isinstance(e, str) and e == "trunc":
            d = orig - v
            sx.check(sx.And(sx.lt(d, 1), sx.lt(-1, d), sx.Or(sx.le(v, orig), sx.le(orig, 0)), sx.Or(sx.le(orig, v), sx.le(0, orig))), "the converted arguments")
        elif isinstance(e, str) and e == "text":
            sx.check(isinstance(v, str), "the converted arguments")
        else:
            sx.check(sx.same_n(flat_ll(norm(v)), flat_ll(norm(e))), "the converted arguments")
            if spec is tuple:
                sx.check(isinstance(v, tuple), "the converted arguments")
    if style == "function":
        sx.check(sx.eq(w.recs()[0][1], res), "the result is unified with the last argument")


def show_num(sx, x):
    return sx.numeral(x)


@harness("C21", cases=[{"style": s} for s in ("function", "predicate", "procedure")], reach=["exactly the declared number of arguments"])
def arity(sx, style):
    """calls with more or fewer arguments are not the action"""
    w = World(sx)
    got = []
    n_ = sx.choose("declared", [0, 1, 2])
    k = sx.choose("given", [0, 1, 2, 3, 4])
    f = lambda *a_: got.append(a_) or True
    coll = agentspeak.Actions(w.actions)
    {"function": coll.add_function, "predicate": coll.add_predicate, "procedure": coll.add_procedure}[style](".g", (None,) * n_, f)
    with Capture() as cap:
        build(w, "!s.\n+!s <- .g%s; .rec(fin).\n" % ("(" + ", ".join(["1"] * k) + ")" if k else ""), coll)
        warned = len(warnings(cap)) > 0
    w.run()
    takes = n_ + (1 if style == "function" else 0)
    hit = k == takes
    sx.check(warned == (not hit), "an unregistered name causes a warning")
    sx.check(len(got) == (1 if hit else 0), "exactly the declared number of arguments")
    if hit:
        sx.check(len(got[0]) == n_, "exactly the declared number of arguments")


@harness("C21", reach=["succeeds exactly when the result unifies", "succeeds exactly when it is true"])
def results(sx):
    """functions succeed exactly if the result unifies with the last argument, predicates
    exactly if true, procedures always; at most once"""
    w = World(sx)
    style = sx.choose("style", ["function", "predicate", "procedure"])
    x, y, z = sx.num("x", -2, 2), sx.num("y", -2, 2), sx.num("z", -2, 2)
    coll = agentspeak.Actions(w.actions)
    N = sx.numeral
    calls = []
    if style == "function":
        form = sx.choose("form", ["number", "list", "literal", "string", "structure var"])
        def f(a_, b_):
            calls.append((a_, b_))
            s_ = a_ * 2 - b_
            return {"number": s_, "list": (s_, 1), "literal": Literal("foo", (s_,)), "string": "txt", "structure var": Literal("foo", (s_, s_))}[form]
        coll.add_function(".g", (int, None), f)
        last = {"number": "Z", "list": "[Z, A]", "literal": "foo(Z)", "string": '"txt"', "structure var": "foo(Z, B)"}[form]
        call = ".g(X, Y, %s)" % last
        want = True if form == "string" else sx.eq(x * 2 - y, z)
    elif style == "predicate":
        coll.add_predicate(".g", (int, int), lambda a_, b_: calls.append((a_, b_)) or a_ < b_)
        call = ".g(X, Y)"
        want = sx.lt(x, y)
    else:
        coll.add_procedure(".g", (int, int), lambda a_, b_: calls.append((a_, b_)))
        call = ".g(X, Y)"
        want = True
    src = "v(%s, %s, %s). !s.\n+!s : v(X, Y, Z) <- .count(c(X, Y, Z), C); .rec(C).\nc(X, Y, Z) :- %s.\n" % (N(x), N(y), N(z), call)
    build(w, src, coll)
    status = w.run()
    sx.check(status == "ok" and len(w.recs()) == 1 and len(calls) == 1, "called once")
    c = w.recs()[0][0]
    sx.check(sx.Iff(sx.eq(c, 1), want), "succeeds exactly when the result unifies" if style == "function" else "succeeds exactly when it is true")
    sx.check(sx.And(sx.le(0, c), sx.le(c, 1)), "at most once")
    sx.check(sx.And(sx.eq(calls[0][0], x), sx.eq(calls[0][1], y)), "the current values of the arguments")


@harness("C21", reach=["the current values of the arguments"])
def current(sx):
    """the arguments are the values at the time of the call, in loops and on backtracking"""
    w = World(sx)
    x, y = sx.num("x", 0, 3), sx.num("y", 4, 7)
    seen = []
    coll = agentspeak.Actions(w.actions)
    coll.add_predicate(".p", (int,), lambda a_: seen.append(a_) or a_ > 3)
    coll.add_procedure(".q", (None, tuple), lambda a_, b_: seen.append((a_, b_)))
    src = "v(%s). v(%s). !s.\n+!s : v(X) & .p(X) <- for (v(Y)) { .q(Y, [X, Y]) }; .q(X, [X]).\n" % (sx.numeral(x), sx.numeral(y))
    ag = build(w, src, coll)
    sx.check(w.run() == "ok", "no error")
    k = [i for i, s_ in enumerate(seen) if isinstance(s_, tuple)]
    preds = [s_ for s_ in seen if not isinstance(s_, tuple)]
    sx.check(sx.eq(preds[-1], y), "the current values of the arguments")
    calls = [s_ for s_ in seen if isinstance(s_, tuple)]
    sx.check(len(calls) == 3, "the current values of the arguments")
    loop = calls[:2]
    sx.check(sx.count_eq([sx.eq(c[0], x) for c in loop], [True]) if False else sx.Or(sx.And(sx.eq(loop[0][0], x), sx.eq(loop[1][0], y)), sx.And(sx.eq(loop[0][0], y), sx.eq(loop[1][0], x))), "the current values of the arguments")
    for c in loop:
        sx.check(sx.And(sx.eq(c[1][0], y), sx.eq(c[1][1], c[0])), "the current values of the arguments")
    sx.check(sx.And(sx.eq(calls[2][0], y), sx.eq(calls[2][1][0], y)), "the current values of the arguments")


@harness("C21", reach=["one variable is one variable", "the current values of the arguments"])
def shared(sx):
    """unbound variables in several arguments: the same ones are the same, others differ"""
    w = World(sx)
    forms = ["%", "f(%)", "[%]", "[1|%]", "g(Z, %)", "h[%]"]
    style = sx.choose("style", ["function", "predicate", "procedure"])
    got = []
    coll = agentspeak.Actions(w.actions)

    def f(*a_):
        got.append(a_)
        return True
    {"function": coll.add_function, "predicate": coll.add_predicate, "procedure": coll.add_procedure}[style](".g", (None, Agent, None, None) if sx.flag("agent") else (None, None, None), f)
    args = [sx.choose("a", forms).replace("%", sx.choose("v", ["X", "Y", "B"])) for _ in range(2)] + [sx.choose("last", ["X", "Y"])]
    x = sx.num("x", -3, 3)
    pre = sx.choose("pre", ["true", "X = Y", "Y = k(X)"])
    src = "b(%s). !s.\n+!s : b(B) & %s <- .g(%s%s).\n" % (sx.numeral(x), pre, ", ".join(args), ", true" if style == "function" else "")
    build(w, src, coll)
    sx.check(w.run() == "ok" and len(got) == 1, "called once")
    names = {}

    vals = [a_ for a_ in got[0] if not isinstance(a_, Agent)]
    sx.check(len(vals) == 3, "exactly the declared number of arguments")
    for v, text in zip(vals, args):
        collect_named(sx, v, text, names, pre, x)
    # one replacement for each unbound variable
    found = sorted(names)
    for i, n1 in enumerate(found):
        sx.check(all(v is names[n1][0] for v in names[n1]), "one variable is one variable")
        for n2 in found[:i]:
            sx.check(names[n1][0] is not names[n2][0], "one variable is one variable")


def collect_named(sx, v, text, names, pre, x):
    """Walks the value along its text."""
    if text in ("X", "Y", "Z", "B"):
        if text == "B":
            sx.check(sx.eq(v, x), "the current values of the arguments")
            return
        if text == "Y" and pre == "Y = k(X)":
            sx.check(isinstance(v, Literal) and v.functor == "k" and len(v.args) == 1, "the current values of the arguments")
            return collect_named(sx, v.args[0], "X", names, pre, x)
        sx.check(isinstance(v, Var), "one variable is one variable")
        names.setdefault("X" if text == "Y" and pre == "X = Y" else text, []).append(v)
        return
    if text.startswith("[1|"):
        sx.check(isinstance(v, agentspeak.LinkedList) or isinstance(v, tuple), "the current values of the arguments")
        if isinstance(v, agentspeak.LinkedList):
            sx.check(sx.eq(v.head, 1), "the current values of the arguments")
            collect_named(sx, v.tail, text[3:-1], names, pre, x)
        return
    if text.startswith("["):
        sx.check(isinstance(v, tuple) and len(v) == 1, "the current values of the arguments")
        return collect_named(sx, v[0], text[1:-1], names, pre, x)
    if text.startswith("h["):
        sx.check(isinstance(v, Literal) and len(v.annots) == 1, "the current values of the arguments")
        return collect_named(sx, next(iter(v.annots)), text[2:-1], names, pre, x)
    parts = text[2:-1].split(", ")
    sx.check(isinstance(v, Literal) and v.functor == text[0] and len(v.args) == len(parts), "the current values of the arguments")
    for t, q in zip(v.args, parts):
        collect_named(sx, t, q, names, pre, x)
