"""C17: messages."""

import agentspeak.runtime

from symx.api import harness
from .prog import *

BOUNDS = {
    "quick": "a sender and 2-3 other agents (also built by build_agents), receivers given as atoms, strings or lists of them in any order (all subsets of 3), 5 performatives, contents p(T, U) with T, U from symbolic numbers 0..2, atoms, strings, lists, structures, unbound or shared variables, one or two messages, receivers with and without plans that react, up to 3 nested goals for unachieve",
    "thorough": "as quick with two messages of every pair of performatives and deeper contents"}
OUTSIDE = ["a receiver named twice in one message", "contents that are not literals", "receivers that have no plan for an achievement or whose plans' contexts raise errors (these errors are reported to the sender, C24)",
           "which of several matching beliefs untell with variables removes", "tellHow, untellHow and askHow (C18)"]
ASSUMPTIONS = []

REACT = """
+!show <- for (p(A, B)[source(S)]) { .rec(belief, A, B, S) }.
+p(A, B)[source(S)] <- .rec(told, A, B, S).
-p(A, B)[source(S)] <- .rec(untold, A, B, S).
+!p(A, B)[source(S)] <- .rec(goal, A, B, S).
"""


def lit_p(sx, x, y, *sources, **kw):
    return Literal("p", (x, y), frozenset([Literal("source", (Literal(s),)) for s in sources] + list(kw.get("extra", []))))


SHAPES = {
    "numbers": "p(%(x)s, %(y)s)",
    "computed": "p(%(x)s + 1, [%(y)s])",
    "bound": "p(X, f(X, Y))",
    "whole": "M",
    "atom": "p(a, \"s t\")",
    "linked": "p([X|[Y]], g)",
}


def expect(sx, shape, x, y):
    return {"numbers": (x, y), "computed": (x + 1, (y,)), "bound": (x, Literal("f", (x, y))), "whole": (x, y),
            "atom": (Literal("a"), "s t"), "linked": ((x, y), Literal("g"))}[shape]


def rows(w, name, tag):
    return [r[1:] for n_, r in w.out if n_ == name and isinstance(r[0], Literal) and r[0].functor == tag]


def pick_receivers(sx, names):
    """(source text, set of names)"""
    how = sx.choose("how", ["atom", "string", "list", "mixed", "variable"])
    if how in ("atom", "string", "variable"):
        r = sx.choose("to", names)
        return {"atom": r, "string": '"%s"' % r, "variable": "V"}[how], [r], ("V = %s; " % r if how == "variable" else "")
    sub = [n_ for n_ in names if sx.flag("to_" + n_)]
    if sx.flag("reverse"):
        sub = sub[::-1]
    items = ['"%s"' % s if how == "mixed" and i % 2 else s for i, s in enumerate(sub)]
    return "[" + ", ".join(items) + "]", sub, ""


def check_delivery(sx, w, names, got, ilf, sender, vals, had):
    """every agent in got received the message once, the others nothing"""
    tag = {"tell": "told", "untell": "untold", "achieve": "goal"}[ilf]
    for n_ in names:
        rs = rows(w, n_, tag)
        others = [r for t in ("told", "untold", "goal") if t != tag for r in rows(w, n_, t)]
        sx.check(not others, "no other reaction")
        if n_ in got:
            sx.check(len(rs) == 1, "delivered exactly once to each receiver")
            sx.check(sx.And(sx.same_n(flat(rs[0][0]), flat(vals[0])), sx.same_n(flat(rs[0][1]), flat(vals[1]))), "the values at the time of sending")
            src = rs[0][2]
            sx.check(isinstance(src, Literal) and src.functor == sender and not src.args, "the source is the sender")
        else:
            sx.check(not rs, "not delivered to others")
        # the beliefs afterwards
        want = []
        if n_ in got and ilf == "tell":
            want.append(lit_p(sx, vals[0], vals[1], sender))
        if had:
            want.append(lit_p(sx, vals[0], vals[1], "other"))
            if not (n_ in got and ilf == "untell") and ilf == "untell":
                want.append(lit_p(sx, vals[0], vals[1], sender))
        sx.check(rows_equal(sx, [flat(b) for b in want], [flat(b) for b in w.env.agents[n_].beliefs[("p", 2)]], False), "beliefs")


def flat(v):
    from symx.api import norm, flat_ll
    return flat_ll(norm(v))


@harness("C17", cases=[{"shape": s, "ilf": i} for s in sorted(SHAPES) for i in ("tell", "untell", "achieve")],
         reach=["delivered exactly once to each receiver", "the values at the time of sending", "the source is the sender"])
def delivery(sx, shape, ilf):
    """send and broadcast to every subset of agents"""
    x, y = sx.num("x", 0, 2), sx.num("y", 0, 2)
    names = ["r1", "r2", "sender"]
    content = SHAPES[shape] % {"x": sx.numeral(x), "y": sx.numeral(y)}
    vals = expect(sx, shape, x, y)
    if sx.flag("broadcast"):
        text, to, pre = ".broadcast(%s, %s)" % (ilf, content), ["r1", "r2"], ""
    else:
        r, to, pre = pick_receivers(sx, names)
        text = ".send(%s, %s, %s)" % (r, ilf, content)
    first = sx.flag("first")
    w = World(sx)
    src = REACT + "!go.\nfact(%s, %s).\n+!go : fact(X, Y) & M = p(X, Y) <- %s%s; .rec(sent).\n" % (sx.numeral(x), sx.numeral(y), pre, text)
    if first:
        w.build(src, "sender")
    w.build(REACT, "r1")
    w.build(REACT, "r2")
    if not first:
        w.build(src, "sender")
    had = ilf == "untell"
    if had:
        for n_ in names:
            w.env.agents[n_].add_belief(lit_p(sx, vals[0], vals[1], "other"), {})
            w.env.agents[n_].add_belief(lit_p(sx, vals[0], vals[1], "sender"), {})
    sx.check(w.run() == "ok" and len(rows(w, "sender", "sent")) == 1, "the sender continues")
    check_delivery(sx, w, names, to, ilf, "sender", vals, had)


@harness("C17", cases=[{"ilf": i} for i in ("tell", "achieve")], reach=["the sender's variables are unaffected"])
def variables(sx, ilf):
    """unbound variables in messages are shared neither with the sender nor between receivers"""
    x, y = sx.num("x", 0, 2), sx.num("y", 3, 5)
    if ilf == "tell":
        # beliefs must be ground: the sender's later bindings must not change what was told
        body = "fact(X) & M = p(X, f(X)) <- .send(r1, tell, M); for (fact2(Z)) { .send(r2, tell, p(Z, X)) }; .rec(M)"
    else:
        body = "fact(X) <- " + sx.choose("to", [".send([r1, r2], achieve, ", ".send([r2, \"r1\"], achieve, ", ".broadcast(achieve, "]) + "q(U, [U, V], X)); .rec(U, V); U = %s; .rec(U, V); V = U" % sx.numeral(y)
    w = World(sx)
    w.build("fact(%s). fact2(%s). !go.\n+!go : %s.\n" % (sx.numeral(x), sx.numeral(y), body), "sender")
    react = "+!q(A, [B, C], D) <- .rec(A, B, C); C = 9; A = D + %d; .rec(A, B, C).\n+p(A, B) <- .rec(A, B).\n"
    w.build(react % 1, "r1")
    w.build(react % 7, "r2")
    sx.check(w.run() == "ok", "no error")
    from symx.api import norm

    def shape(r):
        return norm(tuple(r))
    if ilf == "tell":
        r1, r2 = w.recs("r1"), w.recs("r2")
        sx.check(len(r1) == 1 and len(r2) == 1, "delivered exactly once to each receiver")
        sx.check(sx.And(sx.same(tuple(r1[0]), (x, Literal("f", (x,)))), sx.same(tuple(r2[0]), (y, x))), "the values at the time of sending")
        return
    s = w.recs("sender")
    u, v_ = s[0]
    sx.check(isinstance(u, Var) and isinstance(v_, Var) and u is not v_, "the sender's variables are unaffected")
    sx.check(sx.And(sx.eq(s[1][0], y), isinstance(s[1][1], Var)), "the sender's variables are unaffected")
    for n_, k in (("r1", 1), ("r2", 7)):
        a_, b_ = w.recs(n_)
        sx.check(all(isinstance(t, Var) for t in a_) and a_[0] is a_[1] and a_[0] is not a_[2], "unbound in the receiver")
        sx.check(sx.And(sx.eq(b_[0], x + k), sx.eq(b_[1], x + k), sx.eq(b_[2], 9)), "the receiver binds its own variables")


@harness("C17", cases=[{"how": h} for h in ("send", "broadcast", "twice")], reach=["every receiver removes one of its own matching beliefs", "the sender's variables are unaffected"])
def open_untell(sx, how):
    """untell with unbound variables, to receivers that hold different matching beliefs"""
    pat = sx.choose("pattern", ["p(U, V)", "p(U, U)", "p(K, U)", "p(W, U)", "M"])
    k = sx.num("k", 0, 1)
    names = ["r1", "r2", "r3"]
    has = {}
    w = World(sx)
    send = {"send": ".send([r3, r1, r2], untell, %s)" % pat, "broadcast": ".broadcast(untell, %s)" % pat,
            "twice": ".send(r1, untell, %s); .send([r2, r3], untell, %s)" % (pat, pat)}[how]
    w.build("fact(%s). !go.\n+!go : fact(K) & M = p(U, K) <- .rec(U, V); %s; .rec(U, V).\n" % (sx.numeral(k), send), "sender")
    for i, n_ in enumerate(names):
        w.build("-p(A, B)[source(S)] <- .rec(A, B).\n", n_)
        has[n_] = [(sx.num("x", 0, 1), sx.num("y", 0, 1))] + ([(2, 3)] if i == 1 else [(3, k)] if i == 2 else [])
        for x, y in has[n_]:
            w.env.agents[n_].add_belief(lit_p(sx, x, y, "sender"), {})
    sx.check(w.run() == "ok", "no error")
    for r in w.recs("sender"):
        sx.check(isinstance(r[0], Var) and isinstance(r[1], Var) and r[0] is not r[1], "the sender's variables are unaffected")
    for n_ in names:
        match = [(x, y) for x, y in has[n_] if pat in ("p(U, V)", "p(W, U)") or pat == "p(U, U)" and sx.truth(sx.eq(x, y))
                 or pat == "p(K, U)" and sx.truth(sx.eq(x, k)) or pat == "M" and sx.truth(sx.eq(y, k))]
        gone = w.recs(n_)
        sx.check(len(gone) == (1 if match else 0), "every receiver removes one of its own matching beliefs")
        left = [(b.args[0], b.args[1]) for b in w.env.agents[n_].beliefs[("p", 2)]]
        sx.check(sx.multiset([tuple(r) for r in gone] + left, has[n_]), "every receiver removes one of its own matching beliefs")
        for r in gone:
            sx.check(sx.Or(*[sx.And(sx.eq(r[0], x), sx.eq(r[1], y)) for x, y in match]), "every receiver removes one of its own matching beliefs")


@harness("C17", reach=["annotations are kept"])
def annotations(sx):
    """own annotations of the content are kept besides the source"""
    x = sx.num("x", 0, 2)
    w = World(sx)
    n_ = sx.numeral(x)
    extra = sx.choose("extra", ["[m(%s)]" % n_, "[m(X)]", "[source(z), m(X)]"])
    ilf = sx.choose("ilf", ["tell", "achieve"])
    w.build("fact(%s). !go.\n+!go : fact(X) <- .send(r, %s, p(X)%s).\n" % (n_, ilf, extra), "sender")
    head = sx.choose("head", ["p(A)[m(B), source(S)]", "p(A)[source(S), m(B)]"])
    w.build("+%s <- .rec(S, A, B).\n+!%s <- .rec(S, A, B).\n" % (head, head), "r")
    sx.check(w.run() == "ok", "no error")
    rs = w.recs("r")
    sx.check(len(rs) == 1, "annotations are kept")
    sx.check(sx.And(sx.eq(rs[0][1], x), sx.eq(rs[0][2], x)), "annotations are kept")
    if "z" not in extra:
        sx.check(rs[0][0] == Literal("sender"), "the source is the sender")
    if ilf == "tell":
        b = list(w.env.agents["r"].beliefs[("p", 1)])[0]
        sx.check(Literal("source", (Literal("sender"),)) in list(b.annots), "the source is the sender")


@harness("C17", cases=[{"how": "send"}, {"how": "broadcast"}], reach=["an error"])
def bad(sx, how):
    """unknown performatives and receivers are errors and deliver nothing"""
    ilf = sx.choose("ilf", ["tellall", "ask", "foo(1)", '"tell"', "5", "Q", "tell", "broadcast"] + (["unachieve"] if how == "broadcast" else []))
    to = sx.choose("to", ["r", "[r, nobody]", "nobody", '"nobody"', "[nobody, r]", "r(1)", "[r, Q]", "3"]) if how == "send" else "r"
    sx.assume(ilf != "tell" or (how == "send" and to != "r"))
    w = World(sx)
    w.build("!go.\n+!go <- .send(r, tell, start); .rec(0); %s; .rec(1).\n" % (".send(%s, %s, p(1))" % (to, ilf) if how == "send" else ".broadcast(%s, p(1))" % ilf), "sender")
    w.build("+p(A) <- .rec(p). +!p(A) <- .rec(p). -p(A) <- .rec(p). +start <- .rec(s).\n", "r")
    sx.check(w.run() == "error", "an error")
    w.run()
    sx.check([r[0] for r in w.recs("sender")] == [0], "an error")
    sx.check([r[0] for r in w.recs("r")] == [Literal("s")] and not w.env.agents["r"].beliefs[("p", 1)], "nothing is delivered")


@harness("C17", reach=["untell removes only what the sender told"])
def retract(sx):
    """untell removes exactly the told belief; beliefs of others and other beliefs stay"""
    xs = [sx.num("x%d" % i, 0, 2) for i in range(3)]
    w = World(sx)
    N = sx.numeral
    who = sx.choose("who", ["a", "b"])
    w.build("!go.\n+!go <- .send(r, tell, p(%s)); .send(r, tell, p(%s))%s.\n" % (N(xs[0]), N(xs[1]), "; .wait(0); .send(r, untell, p(%s))" % N(xs[2]) if who == "a" else ""), "a")
    w.build("!go.\n+!go <- .send(r, tell, p(%s))%s.\n" % (N(xs[0]), "; .rec(1); .rec(2); .rec(3); .rec(4); .send(r, untell, p(%s))" % N(xs[2]) if who == "b" else ""), "b")
    w.build("-p(A) <- .rec(A).\n", "r")
    sx.check(w.run() == "ok", "no error")

    def bel(v, s):
        return Literal("p", (v,), frozenset([Literal("source", (Literal(s),))]))
    told = [("a", xs[0]), ("b", xs[0])]
    if not sx.truth(sx.eq(xs[0], xs[1])):
        told.append(("a", xs[1]))
    gone = [t for t in told if t[0] == who and sx.truth(sx.eq(t[1], xs[2]))]
    want = [bel(v, s) for s, v in told if (s, v) not in gone]
    sx.check(sx.multiset(want, list(w.env.agents["r"].beliefs[("p", 1)])), "untell removes only what the sender told")
    sx.check(len(w.recs("r")) == len(gone), "the removal is an event")


UN = {
    "simple": ("+!g(A) <- .rec(A); .rec(A); .rec(A); .rec(A); .rec(A); .rec(A); .rec(A); .rec(A); .rec(A).\n", None),
    "sub": ("+!g(A) <- .rec(A); !h(A); .rec(x).\n+!h(A) <- .rec(A); .rec(A); .rec(A); .rec(A); .rec(A); .rec(A); .rec(A); .rec(A).\n", None),
    "deep": ("+!g(A) <- !h(A); .rec(x).\n+!h(A) <- !k(A); .rec(x).\n+!k(A) <- .rec(A); .rec(A); .rec(A); .rec(A); .rec(A); .rec(A); .rec(A); .rec(A).\n", None),
    "rec": ("+!g(A) <- .rec(A); .rec(A); !g(A); .rec(x).\n", None),
    "wait": ("+!g(A) <- .wait(\"+never\"); .rec(x).\n", None),
}


@harness("C17", cases=[{"shape": s} for s in sorted(UN)], reach=["the goal is dropped", "other goals continue"])
def unachieve(sx, shape):
    """unachieve drops the matching goals with their subgoals, at any point, and nothing else"""
    x, y = sx.num("x", 0, 2), sx.num("y", 0, 2)
    delay = sx.choose("delay", list(range(0, 10)))
    use_var = sx.flag("variable")
    pat = "_" if use_var else sx.numeral(y)
    w = World(sx)
    later = "" if not sx.flag("tell") else "; .send(r, tell, b)"
    w.build("!go.\n+!go <- .send(r, achieve, g(%s)); .send(r, achieve, o(%s)); .send(r, tell, g(%s)); %s.send(r, unachieve, g(%s))%s; .rec(mark).\n"
            % (sx.numeral(x), sx.numeral(x), sx.numeral(x), ".rec(s); " * delay, pat, later), "sender")
    w.build(UN[shape][0] + "+!o(A) <- " + "; ".join([".rec(other)"] * 6) + ".\n+g(A) <- " + "; ".join([".rec(told)"] * 6) + ".\n+b <- .rec(b).\n", "r")
    hit = True if use_var else sx.truth(sx.eq(x, y))
    if shape == "rec" and not hit:
        sx.assume(False)          # would go on forever
    sx.check(w.run() == "ok", "no error")
    tags = [t[0].functor for _, t in w.out if isinstance(t[0], Literal)]
    sx.check(tags.count("other") == 6 and tags.count("told") == 6, "other goals continue")
    sx.check(tags.count("b") == (1 if later else 0), "later messages arrive")
    sx.check(tags.count("mark") == 1, "the sender continues")
    after, seen = 0, False
    for n_, t in w.out:
        if n_ == "sender" and isinstance(t[0], Literal) and t[0].functor == "mark":
            seen = True
        if n_ == "r" and seen and (not isinstance(t[0], Literal) or t[0].functor == "x"):
            after += 1
    if hit:
        total = sum(1 for n_, t in w.out if n_ == "r" and not isinstance(t[0], Literal))
        full = {"simple": 9, "sub": 9, "deep": 8}.get(shape)
        sx.check(full is None or total <= full, "the goal is dropped")
        # the receiver may take a step or two between the message and the mark
        sx.check(after == 0 or (full is not None and total == full), "the goal is dropped")
        sx.check(not any(intention.head_term is not None and intention.head_term.functor == "g" for st in w.env.agents["r"].intentions for intention in st), "the goal is dropped")
    elif shape != "wait":
        sx.check(tags.count("x") == (0 if shape == "simple" else 2 if shape == "deep" else 1), "other goals continue")


@harness("C17", reach=["delivered exactly once to each receiver"])
def many(sx):
    """agents built together, agents added later, and messages to oneself"""
    x = sx.num("x", 0, 2)
    N = sx.numeral(x)
    n_ = sx.choose("n", [1, 2, 3])
    w = World(sx)
    w.env.build_agents(agentspeak.StringSource("r.asl", "+p(A)[source(S)] <- .rec(A, S).\n"), n_, w.actions)
    how = sx.choose("how", [".broadcast(tell, p(%s))" % N, ".send(sender, tell, p(%s))" % N, ".my_name(Me); .send(Me, tell, p(%s)); .send([r, Me], tell, p(%s))" % (N, N)])
    w.build("!go.\n+!go <- .rec(0, 0); %s.\n+p(A)[source(S)] <- .rec(A, S).\n" % how, "sender")
    w.build("+p(A)[source(S)] <- .rec(A, S).\n", "late")
    sx.check(w.run() == "ok", "no error")
    names = [a_ for a_ in w.env.agents]
    sx.check(len(set(names)) == n_ + 2, "names")
    for a_ in names:
        want = 1 if a_ != "sender" else 0
        if "broadcast" not in how:
            want = 0 if a_ != "sender" else 1
        if "Me" in how:
            want = {"sender": 2, "r": 1}.get(a_, 0)
        got = [r for r in w.recs(a_) if not (a_ == "sender" and r[1] == 0)]
        sx.check(len(got) == want, "delivered exactly once to each receiver")
        for r in got:
            sx.check(sx.And(sx.eq(r[0], x), r[1] == Literal("sender")), "the source is the sender")
