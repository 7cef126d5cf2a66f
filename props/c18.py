"""C18: plans exchanged between agents."""

import agentspeak.runtime

from symx.api import harness
from .prog import *

BOUNDS = {
    "quick": "a plan out of 24 shapes (triggers of all kinds, labels, annotations, contexts with rules and negation, bodies with every construct) with symbolic numbers, told as text or asked for, before or after 0-2 plans of the receiver, driven by one of 12 events and one of 3; all histories of 3 operations out of 11 (tell, ask, forget between three agents), then driven by 3 events; requests and plan texts that are malformed: 26 texts and one token of a plan replaced by one of 24, or cut off",
    "thorough": "3 events; histories of 4 operations; two tokens replaced"}
OUTSIDE = ["askHow whose trigger has arguments selects by their number only",
           "an else branch without steps is dropped when a plan is printed"]
ASSUMPTIONS = []

PLANS = {
    "greater": ["+!g(X) : X > ", " <- .rec(big, X)."],
    "any": ["+!g(X) <- .rec(any, X, ", ")."],
    "label": ["@l1 +!g(X) : b(X) & not c(X) <- .rec(b, X); -b(X)."],
    "label annotated": ['@l2[k(1, "x")] +!g(1) <- .rec(one); !!h(1, Z).'],
    "list": ["+!g([H|T]) <- .rec(H); !g(T)."],
    "empty list": ["+!g([]) <- .rec(done)."],
    "result": ["+!h(X, Y) <- Y = X + ", "; .rec(h, X, Y)."],
    "belief": ["@l1 +b(X)[source(S)] : r(Y) | X = Y <- .rec(new, X, Y, S)."],
    "removal": ["-b(X) <- .rec(gone, X)."],
    "test": ["+?t(X) : .member(X, [1, 2, 3]) & X > ", " <- .rec(t, X)."],
    "structured": ['+!g(X) : X == "q\\"x" | not X = 1 & not X = 2 <- if (b(X)) { .rec(yes, X) } else { .rec(no, X) }; for (.member(Y, [1, 2])) { .rec(Y); !h(Y, Z); .rec(Z) }; while (b(Z)) { -b(Z) }; -+c(X).'],
    "conditions": ["+!g(X) <- if (X > ", " & (b(1) | b(X))) { .rec(a) }; if (not b(2)) { .rec(b) } else { if (b(Y)) { .rec(Y) } }; .rec(over)."],
    "wildcard": ["+!g(_) <- ?t(Q); .rec(Q)."],
    "test goal": ["+!g(X) <- ?b(Y) ; ((Z = X & Z == 5) | Z = Y); .rec(X, Y)."],
    "annotated": ["@l3 +!g(X, Y)[a(Z)] <- .rec(X, Y, Z)."],
    "structures": ['+!g(f(X, "s\\n"), ~n) <- .rec(X, g(X)[a(X)], "t\\"").'],
    "no body": ["+!k."],
    "operators": ["+!g(X) : .number(X) & X ", " 1 <- .rec(X ** 2, -X, (X + 1) * 2, 7 mod 2, X - (1 - X)); .rec(not (X < 2), X / 2)."],
    "beliefs": ["+!g(X) <- +b(X); +b(X)[u]; -b(9); -+c(X, ", "); .abolish(b(_)); +d([X|[1]])."],
    "same variable": ["+!g(X, X) : b(X) <- .rec(X)."],
    "finds": ["+!g(X) <- .findall(f(Y, X), b(Y), L); .rec(L); .concat(\"(\", X, \")\", S); .rec(S)."],
    "later": ["+!g(X) : true <- !!h(X, ", "); .rec(first); !h(X, R); .rec(R)."],
    "unify": ["+!g(X) : X = f(A, [B|C])[s(1)] <- .rec(A, B, C)."],
    "deep": ["@l1 +!h(X, Y) : not (b(X) & c(X)) & (X = Y | Y = ", ") <- .rec(X, Y); !k."],
}
OPERATOR_FILL = {"operators": ["<", ">="]}
EVENTS = ["achieve, g(1)", "achieve, g(5)", "achieve, g([1, 2])", "achieve, h(2, Q)", "tell, b(7)", "untell, b(2)", "achieve, g(2, 2)[a(3)]", "achieve, k", 'achieve, g(f(1, "s\\n"), ~n)', 'achieve, g("q\\"x")', "achieve, g(f(1, [2, 3])[s(1)])", "achieve, tt"]
MORE = ["achieve, g(5)", "tell, b(7)", "achieve, h(2, Q)"]

BASE = "b(1).\nb(2).\nr(X) :- b(X) & X > 1.\n+!h(X, own(X)) <- .rec(own_h, X).\n+!tt <- ?t(X); .rec(found, X).\n"
OWN = [[], ["+!g(X) : X == 1 <- .rec(own, X)."], ["+!k <- .rec(own_k).", "@l1 +!g(X) <- .rec(own_any, X)."]]


def plan_text(sx, name):
    parts = PLANS[name]
    if len(parts) == 1:
        return parts[0]
    fill = sx.choose("fill", OPERATOR_FILL[name]) if name in OPERATOR_FILL else sx.numeral(sx.num("n", 0, 6))
    return parts[0] + fill + parts[1]


def run(w):
    """Runs until nothing is left, also after errors."""
    out = []
    with Capture():
        for _ in range(8):
            status = w.run()
            out.append(status)
            if status == "ok":
                break
    return out


def compare(sx, build_a, build_b, events, agents, label):
    """Both worlds answer the events alike; build returns a World that has finished the exchange."""
    worlds = [build_a(), build_b()]
    got = []
    for w in worlds:
        del w.out[:]
        res = []
        for a in agents:
            for e in events:
                with Capture():
                    w.env.build_agent(agentspeak.StringSource("drv.asl", "!s.\n+!s <- .send(%s, %s).\n" % (a, e)), w.actions, name="drv")
                res.append(run(w))
        got.append((res, list(w.out)))
    sx.check(got[0][0] == got[1][0], label)
    sx.check([n for n, _ in got[0][1]] == [n for n, _ in got[1][1]], label)
    sx.check(rows_equal(sx, [row_norm(r) for _, r in got[0][1]], [row_norm(r) for _, r in got[1][1]], True), label)
    sx.observe("answers", len(got[0][1]))


def world(sx, programs, then=None):
    """Agents with their plans, after running the exchange described by the program `then` of an agent m."""
    def build():
        w = World(sx)
        with Capture():
            for name in sorted(programs):
                w.build(BASE + "\n".join(programs[name]) + "\n", name)
            if then is not None:
                w.build(then, "m")
        sx.check(run(w) == ["ok"], "the exchange succeeds")
        return w
    return build


@harness("C18", quick=[{"plan": p, "events": 2} for p in sorted(PLANS)], thorough=[{"plan": p, "events": 3} for p in sorted(PLANS)], path_s=20, reach=["a told plan behaves as if it had been part of the program"])
def told(sx, plan, events):
    """tellHow against the same plan in the program"""
    text = plan_text(sx, plan)
    own = sx.choose("own", OWN)
    how = sx.choose("how", ["constant", "variable"])
    evs = [sx.choose("event", EVENTS if not k else MORE) for k in range(events)]
    q = text_quote(sx, plan, text)
    m = "!s.\n+!s <- " + (".send(a, tellHow, " + q + ").\n" if how == "constant" else "T = " + q + "; .send([a], tellHow, T).\n")
    compare(sx, world(sx, {"a": own}, m), world(sx, {"a": own + [text]}), evs, ["a"], "a told plan behaves as if it had been part of the program")


def text_quote(sx, plan, text):
    """The text as a string constant of a program."""
    parts = [p.replace("\\", "\\\\").replace('"', '\\"') for p in PLANS[plan]]
    if len(parts) == 1:
        return '"' + parts[0] + '"'
    a = len(PLANS[plan][0])
    b = len(text) - len(PLANS[plan][1])
    return '"' + parts[0] + text[a:b] + parts[1] + '"'




def trigger_of(text):
    """(how to ask for it, without arguments) for a plan text"""
    t = text[text.index("+" if "+" in text else "-"):] if text.startswith("@") else text
    i = 0
    while i < len(t) and (t[i] in "+-!?" or t[i].isalnum()):
        i += 1
    return t[:i]


def signature(text):
    t = trigger_of(text)
    rest = text[text.index(t) + len(t):]
    if not rest.startswith("("):
        return t, 0
    depth, n, i = 0, 1, 0
    instr = False
    for i, c in enumerate(rest):
        if c == '"' and rest[i - 1] != "\\":
            instr = not instr
        elif instr:
            continue
        elif c in "([":
            depth += 1
        elif c in ")]":
            depth -= 1
            if not depth:
                break
        elif c == "," and depth == 1:
            n += 1
    return t, n


def asked_for(plans, ask):
    """The plans that the answer contains, in order."""
    want, n = signature(ask + " ")
    return [p for p in plans if signature(p)[0] == want and (n == 0 or signature(p)[1] == n)]


@harness("C18", quick=[{"plan": p, "events": 2} for p in sorted(PLANS)], thorough=[{"plan": p, "events": 3} for p in sorted(PLANS)], path_s=20, reach=["an answered plan behaves like the owner's", "the owner is unchanged"])
def asked(sx, plan, events):
    """askHow, once or twice, against the same plans in the program"""
    text = plan_text(sx, plan)
    trigger = trigger_of(PLANS[plan][0])
    nargs = signature(PLANS[plan][0])[1] if len(PLANS[plan]) == 1 else signature(PLANS[plan][0] + "0" + PLANS[plan][1])[1]
    ask = trigger
    if nargs and sx.flag("with arguments"):
        ask = trigger + "(" + ", ".join("A%d" % i for i in range(nargs)) + ")"
    times = sx.choose("times", [1, 2])
    who = sx.choose("who", ["owner", "owner", "asker"]) if events > 2 else sx.choose("who", ["asker", "owner"])
    evs = [sx.choose("event", EVENTS if not k else MORE) for k in range(events)]
    second = "+!g(X) : X < 3 <- .rec(second, X)."
    owner = [text, second]
    n_same = trigger == "+!g" and (ask == trigger or nargs == 1)
    # the owner's base plan for h answers too
    answer = ["+!h(X, own(X)) <- .rec(own_h, X)."] if trigger == "+!h" else []
    answer = answer + [text] + ([second] if n_same else [])
    prog = {"asker": ["!ask.", "+!ask <- " + "; ".join('.send(owner, askHow, "%s")' % ask for _ in range(times)) + "."], "owner": owner}
    want = {"asker": answer * times, "owner": owner}
    compare(sx, world(sx, prog), world(sx, want), evs, [who], "an answered plan behaves like the owner's" if who == "asker" else "the owner is unchanged")


OPS = {
    "tell a": ("m", "a", "tellHow", '@l1 +!g(X) : X > 2 <- .rec(p1, X).'), "tell b": ("m", "b", "tellHow", "+!g(X) <- .rec(p2, X)."),
    "tell a 2": ("m", "a", "tellHow", "@l2[x(1)] +!g(X) : b(X) <- .rec(p3, X)."), "tell b 2": ("m", "b", "tellHow", "@l1 +!h(X, 0) <- .rec(p4, X)."),
    "ask a b": ("a", "b", "askHow", "+!g"), "ask b a": ("b", "a", "askHow", "+!g(X)"), "ask a b h": ("a", "b", "askHow", "+!h(X, Y)"),
    "forget a": ("m", "a", "untellHow", "@l1"), "forget b": ("m", "b", "untellHow", "@l1"), "forget a 2": ("b", "a", "untellHow", "@l2"), "forget none": ("m", "a", "untellHow", "@l9"),
}


@harness("C18", quick=[{"n": 2}, {"n": 3}], thorough=[{"n": 4}], path_s=20, reach=["after any history plans are those of the reference"])
def histories(sx, n):
    """tell, ask and forget in any order"""
    names = ["a", "b"]
    start = {"a": ["+!g(1) <- .rec(a1)."], "b": ["@l1 +!g(X) : X > 6 <- .rec(b1, X).", "+!h(X, 1) <- .rec(b2, X)."]}
    h = "+!h(X, own(X)) <- .rec(own_h, X)."
    want = {"a": [h] + start["a"], "b": [h] + start["b"]}
    script = []
    for _ in range(n):
        src, dst, ilf, text = OPS[sx.choose("op", sorted(OPS))]
        if ilf == "tellHow":
            want[dst] = want[dst] + [text]
        elif ilf == "untellHow":
            want[dst] = [p for p in want[dst] if not (p.startswith(text + " ") or p.startswith(text + "["))]
        else:
            answer = asked_for(want[dst], text)
            sx.assume(len(answer) > 0)
            want[src] = want[src] + answer
        script.append((src, dst, ilf, text))
    events = ["achieve, g(1)", "achieve, g(7)", "achieve, h(3, Q)"]

    def exchanged():
        w = World(sx)
        with Capture():
            for x in names:
                w.build(BASE + "\n".join(start[x]) + "\n+!do(R, I, T) <- .send(R, I, T).\n", x)
        for k, (src, dst, ilf, text) in enumerate(script):
            with Capture():
                if src == "m":
                    w.build('!s.\n+!s <- .send(%s, %s, "%s").\n' % (dst, ilf, text), "m%d" % k)
                else:
                    w.build('!s.\n+!s <- .send(%s, achieve, do(%s, %s, "%s")).\n' % (src, dst, ilf, text), "m%d" % k)
            sx.check(run(w) == ["ok"], "the exchange succeeds")
        return w

    def reference():
        w = World(sx)
        with Capture():
            for x in names:
                w.build(BASE.replace(h + "\n", "") + "\n".join(want[x]) + "\n", x)
        return w
    compare(sx, exchanged, reference, events, names, "after any history plans are those of the reference")


MALFORMED = ["", " ", "+", "+!", "+!g", "+!g <- ", "+!g <- a", "b(3).", "!g.", "r :- b(1).", "+!g(X) <- .rec(X)", "+!g <- .rec(1). +!h.", "+!g(1 + X) <- a.", "@l", "@l.", "hello", '+!g <- "', "+!g <- .rec(1)) .",
             "+!g : <- a.", "+!g <- if (a) { b .", "/* +!g. */", "// +!g.", "+!g $ <- a.", "{include(\"nosuch.asl\")}", "+!g <- 1 / 0.", "+!g. x", "+!g(X) : X + true <- a."]
UNKNOWN = ["+!nosuch", "+!g(A, B, C)", "+?g", "-!g", "+g", "+!gg", "+!h(X)", "", "g", "+!", "+!g(", "+!g extra", "+!g <- a", "!g", '"', "+!1", "$", "@l1"]


@harness("C18", path_s=20, reach=["malformed requests are errors", "malformed requests change no plans"])
def malformed(sx):
    """malformed plan texts, requests for unknown plans, contents that are no strings"""
    kind = sx.choose("kind", ["tellHow", "askHow", "term"])
    if kind == "term":
        ilf = sx.choose("ilf", ["tellHow", "askHow"])
        content = sx.choose("content", ["hello", "1", "f(x)", "[1]", "X", "true"])
    else:
        ilf = kind
        content = '"' + sx.choose("text", MALFORMED if kind == "tellHow" else UNKNOWN).replace('"', '\\"') + '"'
    failing(sx, ilf, content)


def failing(sx, ilf, content, label="malformed requests are errors"):
    own = {"a": ["+!g(X) <- .rec(a, X)."], "b": ["@l1 +!h(X, 1) <- .rec(b2, X)."]}

    def attempt():
        w = World(sx)
        with Capture():
            for x in sorted(own):
                w.build(BASE + "\n".join(own[x]) + "\n", x)
            m = w.build("!s.\n+!s <- .send([a, b], " + ilf + ", " + content + "); .rec(unreached).\n", "m")
        try:
            with Capture() as cap:
                w.env.run()
            sx.fail(label)
        except AggregatedError:
            sx.check(any(l is not None for l in cap.errors()), label)
        sx.check(w.recs() == [], label)
        run(w)
        sx.check(w.recs() == [], label)
        return w
    compare(sx, attempt, world(sx, own), ["achieve, g(1)", "achieve, h(2, Q)", "achieve, nosuch"], ["a", "b"], "malformed requests change no plans")


TOKENS = ["a", "X", "1", '"s"', "+", "-", "not", "&", "(", ")", "[", "]", "{", ",", ".", "<-", ":", ";", "!", "@", "if", "$", "p(X)", "+!"]
TEXT = ["@", "l", "+", "!", "g", "(", "X", ",", "9", ")", ":", "b", "(", "X", ")", "<-", ".rec", "(", "X", ")", ";", "a", "."]


@harness("C18", quick=[{"how": h} for h in ("replace", "cut")], thorough=[{"how": h} for h in ("replace", "cut", "two")], path_s=20, reach=["a plan text is accepted exactly if it loads as a program"])
def mutated(sx, how):
    """a plan text with a token replaced: accepted exactly if the program with it loads"""
    toks = list(TEXT)
    at = sx.choose("at", list(range(len(toks))))
    if how == "cut":
        del toks[at:]
    elif how == "two":
        toks[at:at + 2] = [sx.choose("token", TOKENS), sx.choose("token", TOKENS)]
    else:
        toks[at] = sx.choose("token", TOKENS)
    text = " ".join(toks)
    w = World(sx)
    with Capture():
        try:
            w.build(text, "p")
            p = w.env.agents["p"]
            loads = len([x for ps in p.plans.values() for x in ps]) == 1 and not any(p.rules.values()) and not any(p.beliefs.values()) and not p.intentions
        except (AslError, AggregatedError):
            loads = False
    if not loads:
        failing(sx, "tellHow", '"' + text.replace('"', '\\"') + '"', "a plan text is accepted exactly if it loads as a program")
        return
    with Capture():
        w.build("", "a")
        w.build('!s.\n+!s <- .send(a, tellHow, "' + text.replace('"', '\\"') + '").\n', "m")
    sx.check(run(w) == ["ok"], "a plan text is accepted exactly if it loads as a program")
    sx.check([len(ps) for ps in w.env.agents["a"].plans.values() if ps] == [1], "a plan text is accepted exactly if it loads as a program")
