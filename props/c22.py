"""C22: the optimizer preserves what programs do."""

import agentspeak.optimizer

from symx.api import harness, norm, flat_ll
from .prog import *

BOUNDS = {
    "quick": "one agent of up to 4 plans with up to 4 formulas: sequences of 2 unifications over 3 variables and 11 terms after a binding (thorough: 3), conditions of depth 2 over facts, unifications, comparisons, not, & and |, as contexts, formulas, if/for/while conditions and tests; bindings made in branches, loops, subgoals, tests, actions and by events; updates with bound, unbound and shared variables; arithmetic on propagated constants; symbolic constants in [-2,3]",
    "thorough": "as quick with 3 unifications and conditions of depth 2 on both sides"}
OUTSIDE = ["programs whose run ends with an error without the optimizer (the optimizer may remove the failing query)",
           "actions whose effects are declared wrongly", "the preserve_errors option", "the warnings of the optimizer",
           "longer bodies than stated"]
ASSUMPTIONS = ["the order of facts of one predicate is that of insertion in both runs"]


def world(sx):
    w = World(sx, agentspeak.stdlib.actions)
    for key in list(w.actions.variadic_actions):
        if key == ".rec":
            w.actions.variadic_actions[key] = agentspeak.optimizer.no_scope_effects(w.actions.variadic_actions[key])
    return w


def build_optimized(w, src):
    """The public entry point, with .rec among the standard actions whose effects it knows."""
    saved = agentspeak.stdlib.actions
    agentspeak.stdlib.actions = w.actions
    try:
        agentspeak.optimizer.build_agent_optimized(w.env, agentspeak.StringSource("ag.asl", src), w.actions)
    finally:
        agentspeak.stdlib.actions = saved


def beliefs(sx, w):
    agent = list(w.env.agents.values())[0]
    rows = []
    for key in sorted(agent.beliefs):
        for fact in agent.beliefs[key]:
            rows.append(("fact", fact))
    return rows


def terms(rows):
    out = []
    for row in rows:
        names = {}
        out.append(tuple([flat_ll(norm(t, names)) for t in row]))
    return out


def preserved(sx, src, act=lambda w: None):
    w = world(sx)
    act(w)
    try:
        w.build(src)
        status = w.run()
    except (AggregatedError, AslError):
        status = "load-error"
    sx.assume(status == "ok")
    o = world(sx)
    act(o)
    try:
        build_optimized(o, src)
        ostatus = o.run()
    except (AggregatedError, AslError):
        ostatus = "error"
    sx.observe("rows", len(w.recs()))
    sx.check(ostatus == "ok", "the optimized program runs without an error, too")
    sx.check(rows_equal(sx, terms(o.recs()), terms(w.recs()), True), "the same calls of actions in the same order")
    sx.check(rows_equal(sx, terms(beliefs(sx, o)), terms(beliefs(sx, w)), False), "the same beliefs at the end")


FACTS = "p(1). p(2)[m(7)]. q(f(1)). r(2, f(2)). w(1). w(2).\n!s.\n"


class G(object):
    """Source text of terms, queries and formulas; K are symbolic constants."""

    ATOMS = ["p(X)", "q(f(Y))", "X = K", "Y = f(X)", "X = Y", "X < K", "true", ".member(X, [K, 2])"]
    MORE = ["p(K)", "q(Z)", "r(X, Y)", "X == Y", ".count(p(X), Z)", "false"]

    def __init__(self, sx, nums=2, atoms=ATOMS):
        self.sx = sx
        self.atoms = atoms
        self.k = [sx.numeral(sx.num("k", -2, 3)) for _ in range(nums)]
        self.i = 0

    def K(self):
        self.i += 1
        return self.k[self.i % len(self.k)]

    def term(self, more=()):
        t = self.sx.choose("term", ["K", "X", "Y", "Z", "f(K)", "f(Y)", "f(X)", "f(Z)[K]", "[Z]", "[Y|Z]", "Y + K", "_"] + list(more))
        return t.replace("K", self.K())

    def atom(self):
        """A condition without operators."""
        t = self.sx.choose("atom", self.atoms)
        return t.replace("K", self.K())

    def cond(self, depth):
        """A condition with at most depth operators on each branch."""
        if depth == 0:
            return self.atom()
        op = self.sx.choose("op", ["atom", "not", "&", "|"])
        if op == "atom":
            return self.atom()
        if op == "not":
            return "not (" + self.cond(depth - 1) + ")"
        left, right = self.atom(), self.cond(depth - 1)
        if depth > 1 and self.sx.flag("swap"):
            left, right = right, left
        return "(" + left + " " + op + " " + right + ")"


def body(*formulas):
    return "; ".join([f for f in formulas if f])


PRE = ["", "X = 1", "X = f(Y)", "X = [Y]", "X = Y", "?q(X)", "X = f(Y); Y = 2", "?r(X, Y)"]
SAME = "the same calls of actions in the same order"


@harness("C22", quick=[{"pre": p, "n": 1} for p in PRE], thorough=[{"pre": p, "n": 2} for p in PRE], reach=[SAME])
def unifications(sx, pre, n):
    """sequences of unifications over shared variables"""
    g = G(sx)
    form = sx.choose("form", ["body", "if"])
    steps = []
    for _ in range(n):
        steps.append(sx.choose("left", ["X", "Y", "Z"]) + " = " + g.term())
    steps.append(sx.choose("last", ["Y = f(Z)", "f(Y) = f(X)", "f(X, 1) = f(Z, Y)", "Z = X"]))
    used = ".rec(" + (sx.choose("used", ["X, Y, Z", "Z"]) if form == "body" else "X, Y, Z") + ")"
    if form == "if":
        steps = ["if (" + " & ".join(steps) + ") { " + used + " } else { .rec(no, X) }"]
    preserved(sx, FACTS + "+!s <- " + body(pre, *(steps + [used])) + ".\n")


WHERE = ["context", "formula", "if", "for", "while", "rule"]


def placed(where, cond, used):
    rec = ".rec(" + used + ")"
    if where == "context":
        return "+!s : " + cond + " <- " + rec + ".\n+!s <- .rec(none).\n"
    if where == "formula":
        return "+!s <- " + cond + "; " + rec + ".\n"
    if where == "if":
        return "+!s <- if (" + cond + ") { " + rec + " } else { .rec(no) }; .rec(after, X, Y, Z).\n"
    if where == "for":
        return "+!s <- for (" + cond + ") { " + rec + " }; .rec(after, X, Y, Z).\n"
    if where == "while":
        return "+!s <- while (w(W) & (" + cond + ")) { -w(_); " + rec + " }; .rec(after, X, Y, Z).\n"
    return "t(X, Y, Z) :- " + cond + ".\n+!s <- for (t(X, Y, Z)) { " + rec + " }.\n"


@harness("C22", quick=[{"where": w, "pre": p, "depth": 1} for w in WHERE for p in ["", "X = 1", "Y = f(X)"]],
         thorough=[{"where": w, "pre": p, "depth": 2} for w in WHERE for p in ["", "X = 1", "Y = f(X)", "X = Y"]], reach=[SAME])
def conditions(sx, where, pre, depth):
    """conditions in every place that evaluates one"""
    g = G(sx, 2, G.ATOMS + G.MORE if not pre and depth == 1 else G.ATOMS)
    cond = g.cond(depth)
    used = sx.choose("used", ["X, Y, Z", "Y"]) if not pre else "X, Y, Z"
    src = placed(where, cond, used)
    if pre:
        if where in ("context", "rule"):
            src = src.replace(cond, pre + " & " + cond, 1)
        else:
            src = src.replace("<- ", "<- " + pre + "; ", 1)
    preserved(sx, FACTS + src)


@harness("C22", reach=[SAME])
def folding(sx):
    """arithmetic and comparisons on constants that the optimizer propagates"""
    g = G(sx, 3)
    a, b, c = g.k
    op = sx.choose("op", ["+", "-", "*", "/", "mod", "div", "**"])
    rel = sx.choose("rel", ["<", "<=", ">", ">=", "==", "\\==", "="])
    form = sx.choose("form", ["X " + op + " Y", "-(X " + op + " " + b + ")", a + " " + op + " -Y", "X " + op + " Y - X"])
    if op in ("**", "mod", "div", "/"):
        sx.assume(form == "X " + op + " Y")
        g.sx.assume(rel in ("<", "==", "="))
    where = sx.choose("where", ["if", "dead", "context"])
    pre = "X = " + a + "; Y = " + b + "; "
    if where == "if":
        src = "+!s <- " + pre + "Z = " + form + "; if (Z " + rel + " " + c + ") { .rec(yes, Z) } else { .rec(no, Z) }.\n"
    elif where == "dead":
        src = "+!s <- " + pre + "if (X " + rel + " Y) { Z = " + form + "; .rec(Z) } else { .rec(X, Y, Z) }.\n"
    else:
        src = "+!s <- !t(" + a + ", " + b + ").\n+!t(X, Y) : Z = " + form + " & Z " + rel + " " + c + " <- .rec(Z).\n+!t(X, Y) <- .rec(X, Y).\n"
    preserved(sx, FACTS + src)


@harness("C22", reach=[SAME])
def branches(sx):
    """variables bound on one way only, and what follows"""
    g = G(sx)
    cond = sx.choose("cond", ["p(X)", "p(K)", "X = K", "Y = 1 & p(Y)", "not p(K)", "true", "false", "p(X) | q(Y)", "X = 1 | X = 2"]).replace("K", g.k[0])
    one = sx.choose("one", ["X = K", "Y = f(X)", "X = Z", "!g(Y)", "+p(K)", "?q(Z)", "if (X = K) { Y = X } else { Y = 2 }", "for (p(X)) { .rec(in, X) }",
                            ".rec(one, X)", "-w(K)"]).replace("K", g.k[1])
    two = sx.choose("two", ["", "X = 2", "Y = f(Z)"])
    kind = sx.choose("kind", ["if", "else", "for", "while"])
    last = sx.choose("last", ["X = Y", "Z = f(X); Z = f(1)"])
    if kind == "if":
        st = "if (" + cond + ") { " + one + " } else { " + two + " }"
    elif kind == "else":
        st = "if (" + cond + ") { " + two + " } else { " + one + " }"
    elif kind == "for":
        st = "for (" + cond + ") { " + one + "; .rec(X, Y, Z) }; " + two
    else:
        st = "while (w(W) & (" + cond + ")) { -w(_); " + one + " }; " + two
    preserved(sx, FACTS + "+!g(K).\n+!g(7).\n".replace("K", g.k[0]).replace("+!g(7).\n", "") + "+!s <- " + body(st.rstrip("; "), last, ".rec(X, Y, Z)") + ".\n")


@harness("C22", reach=[SAME, "the same beliefs at the end"])
def events(sx):
    """goals, tests, actions and updates with bound, unbound and shared variables"""
    g = G(sx)
    pre = sx.choose("pre", ["", "X = K", "X = f(Y)", "X = Y", "?q(X)", "X = [Y]"]).replace("K", g.k[0])
    arg = sx.choose("arg", ["X", "f(X)", "Y", "K", "[X|Y]", "_", "f(X, X)"]).replace("K", g.k[1])
    do = sx.choose("do", ["!g(A)", "!!g(A)", "+p(A)", "-p(A)", "-+p(A)", "?p(A)", "+u(A)[A]", "?t(A)", ".member(A, [X, K])", ".count(p(A), Z)", "-p(A)[m(X)]", "-+q(A); -q(_)"])
    post = sx.choose("post", ["", "X = Y", "X = f(Z)", "Y = 2; X = 2"])
    src = FACTS + "t(1). t(V) :- V = f(2) & q(Z).\n"
    src += "+!s <- " + body(pre, do.replace("A", arg).replace("K", g.k[0]), post, ".rec(X, Y, Z)") + ".\n"
    src += "+!g(f(V)) <- V = " + g.k[0] + "; .rec(gf, V).\n+!g(V) : p(V) & V = W <- .rec(g, V, W).\n+!g(V) <- V = f(1); .rec(g, V).\n"
    src += "+p(V) : V > 0 <- .rec(pos, V).\n+p(V) <- .rec(new, V).\n-p(V) : not p(V) <- .rec(gone).\n+u(V) <- ?u(W)[V]; .rec(u, V, W).\n"
    src += "+?t([V|W]) <- V = 1; W = [2].\n-q(V) <- .rec(removed).\n"
    preserved(sx, src)


@harness("C22", reach=[SAME])
def heads(sx):
    """triggers with repeated, partly bound and annotated arguments"""
    g = G(sx)
    call = sx.choose("call", ["X, X", "X, Y", "f(X), X", "K, Y", "f(K), f(Y)", "X, [Y|Z]", "[1, 2], X"]).replace("K", g.k[0])
    head = sx.choose("head", ["A, A", "A, B", "f(A), B", "A, f(A)", "[A|B], C", "K, A", "A, _"]).replace("K", g.k[1])
    ctx = sx.choose("ctx", ["", " : A = 1", " : B = f(C)", " : p(A) & B = A", " : not A = 2", " : A = B | A = 1", " : C = A & C = f(2)"])
    bod = sx.choose("bod", ["", "A = 2", "B = f(A)", "B = C; C = 3", "C = f(A); C = f(1)", "+p(A)"])
    src = FACTS + "+!s <- !g(" + call + "); .rec(X, Y, Z).\n"
    src += "+!g(" + head + ")" + ctx + " <- " + body(bod, ".rec(A, B, C)") + ".\n+!g(A, B) <- .rec(other, A, B).\n"
    preserved(sx, src)


@harness("C22", reach=[SAME])
def declared(sx):
    """actions that declare what they do to their arguments and to the scope"""
    g = G(sx)
    kind = sx.choose("kind", ["rule", "function", "bound", "away", "scope", "unknown", "evil"])
    src = FACTS + "+!s <- " + body(sx.choose("pre", ["", "X = K", "Y = f(X)"]).replace("K", g.k[0]),
                                   ".do(X, Y)", sx.choose("post", ["", "Y = 2", "Z = Y; X = Z"]).replace("K", g.k[1]), ".rec(X, Y, Z)") + ".\n"
    src += "+!t <- X = " + g.k[0] + "; !s; .rec(X).\n!t.\n"

    def act(w):
        """binds its unbound arguments to 1 and then to 2"""
        def do(agent, term, intention):
            for value in (1, 2):
                choicepoint = object()
                intention.stack.append(choicepoint)
                if all([agentspeak.unify(t, value, intention.scope, intention.stack)
                        for t in term.args if isinstance(agentspeak.deref(t, intention.scope), agentspeak.Var)]):
                    yield
                agentspeak.reroll(intention.scope, intention.stack, choicepoint)
        o = agentspeak.optimizer
        if kind == "rule":
            do = o.rule_like(do)
        elif kind == "function":
            do = o.function_like(do)
        elif kind == "bound":
            do = o.all_bound(do)
        elif kind == "away":
            def do(agent, term, intention):
                yield
            do = o.optimize_away(o.no_scope_effects(do))
        elif kind == "scope":
            do = o.side_effect(o.InferenceEvilnessConst.AFFECT_SCOPE, o.InferenceEvilnessConst.EFFECT_BIND, do)
        elif kind == "evil":
            do = o.side_effect(o.InferenceEvilnessConst.AFFECT_UNIVERSE, o.InferenceEvilnessConst.EFFECT_ALL, do)
        w.actions.add(".do", 2, do)
    preserved(sx, src, act)
