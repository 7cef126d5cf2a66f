"""C12: the belief base behaves as a set of ground facts under every update sequence."""

from symx.api import harness, flat_ll
from .prog import *
from .prog import lst as L

BOUNDS = {
    "quick": "all sequences of 2 updates out of 26 forms after up to 2 initial facts, and of 3 updates out of 9 forms; facts p/1, p/2, q/1 over symbolic integers in [0,1], decimals, booleans, strings, atoms, plain and linked lists, with and without an annotation; contents observed through queries after every update",
    "thorough": "all sequences of 3 updates out of 26 forms"}
OUTSIDE = ["which of several matching facts a removal takes (any one is accepted)"]
ASSUMPTIONS = []


class F(object):
    """A fact or pattern: functor, argument terms, annotation terms."""

    def __init__(self, f, args, annots=()):
        self.f, self.args, self.annots = f, tuple(args), tuple(annots)

    def show(self, sx):
        s = show(sx, ("f", self.f) + self.args)
        if self.annots:
            s += "[" + ", ".join(show(sx, x) for x in self.annots) + "]"
        return s


def matches(sx, pat, fact):
    """Forks: pattern matches fact (annotations of the pattern are required)."""
    ref = Ref(sx)
    if pat.f != fact.f:
        return False
    s = ref.unify({}, ("f", pat.f) + pat.args, ("f", fact.f) + fact.args)
    if s is None:
        return False
    return all(any(ref.unify(s, x, y) is not None for y in fact.annots) for x in pat.annots)


def same_fact(sx, x, y):
    return x.f == y.f and len(x.annots) == len(y.annots) and matches(sx, x, y) and matches(sx, y, x)


def add(sx, state, fact):
    return state if any(same_fact(sx, fact, o) for o in state) else state + [fact]


def remove_one(sx, state, pat):
    """All states a removal may lead to."""
    hits = [i for i, o in enumerate(state) if matches(sx, pat, o)]
    return [state[:i] + state[i + 1:] for i in hits] or [state]


OBS = [("p1", "p(A0)", ("A0",)), ("p1a", "p(B0)[s(B1)]", ("B0", "B1")), ("p2", "p(C0, C1)", ("C0", "C1")),
       ("q1", "q(D0)", ("D0",))]


def snapshot_src(i):
    return "; ".join("for (%s) { .rec(%d, %s, %s) }" % (q, i, name, ", ".join(vs)) for name, q, vs in OBS)


def rows_of(state):
    """Reference rows of each observation."""
    out = {}
    for f in state:
        if f.f == "p" and len(f.args) == 1:
            out.setdefault("p1", []).append(f.args)
            for x in f.annots:
                out.setdefault("p1a", []).append(f.args + (x[2],))
        elif f.f == "p":
            out.setdefault("p2", []).append(f.args)
        else:
            out.setdefault("q1", []).append(f.args)
    return out


def agrees(sx, state, got):
    """Formula: the observed rows are those of the state."""
    want = rows_of(state)
    return sx.And(*[rows_equal(sx, got.get(k, []), [("list", tuple(flat_ll(ref_norm(x)) for x in r)) for r in want.get(k, [])], False)
                    for k, _, _ in OBS])


def ops(sx):
    """(name, kind, fact/pattern) of the update forms; K, J, M are bound variables or constants."""
    k, j = n(sx.num("k", 0, 1)), n(sx.num("j", 0, 1))
    kf = n(sx.num("kf", 0, 1, "float"))
    s = lambda x: a("s", x)      # noqa
    return [
        ("add", F("p", [k])), ("add", F("p", [k], [s(j)])), ("add", F("p", [k, j])), ("add", F("p", [L(k)])),
        ("add", F("p", [("c", k, L())])), ("add", F("p", [("b", True)])), ("add", F("p", [("s", "a")])),
        ("add", F("p", [a("a")])), ("add", F("q", [k])), ("addexpr", F("p", [kf])),
        ("remove", F("p", [k])), ("remove", F("p", [W])), ("remove", F("p", [k], [s(j)])), ("remove", F("p", [W], [s(W)])),
        ("remove", F("p", [k, W])), ("remove", F("q", [k])), ("remove", F("p", [L(W)])),
        ("replace", F("p", [k])), ("replace", F("p", [k, j])), ("replvar", F("p", [k, j])), ("replvar", F("p", [k])),
        ("abolish", F("p", [W])), ("abolish", F("p", [k])), ("abolish", F("p", [k], [s(j)])), ("abolish", F("p", [W, k])),
        ("abolish", F("q", [W]))]


SMALL = [0, 1, 10, 11, 13, 17, 20, 21, 23]


def apply(sx, kind, f, states):
    out = []
    for st in states:
        if kind in ("add", "addexpr"):
            out.append(add(sx, st, f))
        elif kind == "remove":
            out += remove_one(sx, st, f)
        elif kind == "abolish":
            out.append([o for o in st if not matches(sx, f, o)])
        else:
            # replvar: the last argument is written as an expression or variable
            pat = F(f.f, f.args[:-1] + (W,), f.annots) if kind == "replvar" else f
            out += [add(sx, s1, f) for s1 in remove_one(sx, st, pat)]
    return out


def op_src(sx, kind, f):
    if kind in ("addexpr", "replvar"):
        # last argument as an expression or a bound variable
        sign = "+" if kind == "addexpr" else "-+"
        head = [show(sx, x) for x in f.args[:-1]]
        last = f.args[-1][1]
        form = sx.choose("form", ["expr", "var"])
        if form == "expr":
            return "O = 1; %s%s(%s)" % (sign, f.f, ", ".join(head + ["%s + O - 1" % sx.numeral(last)]))
        return "V = %s; %s%s(%s)" % (sx.numeral(last), sign, f.f, ", ".join(head + ["V"]))
    if kind == "abolish":
        return ".abolish(%s)" % f.show(sx)
    return {"add": "+", "remove": "-", "replace": "-+"}[kind] + f.show(sx)


def sequence(sx, forms, n_ops, n_init):
    x = sx.num("i", 0, 1)
    inits = [None, F("p", [n(x)]), F("p", [n(x)], [a("s", n(0))]), F("p", [n(x), n(1)]), F("p", [("b", True)]),
             F("p", [L(n(x))])]
    init = []
    for _ in range(n_init):
        f = sx.choose("init", inits)
        if f is not None:
            init.append(f)
    steps = []
    for i in range(n_ops):
        al = ops(sx)
        steps.append(sx.choose("op", [al[q] for q in forms]))
    lines = [f.show(sx) + "." for f in init]
    goals = []
    for i, (kind, f) in enumerate(steps):
        lines.append("+!s%d <- %s; %s." % (i, op_src(sx, kind, f), snapshot_src(i)))
        goals.append("!s%d" % i)
    lines.append("!s.\n+!s <- %s." % "; ".join([snapshot_src(99)] + goals))
    w = World(sx)
    w.build("\n".join(lines) + "\n")
    status = w.run()
    sx.observe("status", status)
    sx.check(status == "ok", "no update fails")
    got = {}
    for r in w.recs():
        got.setdefault(r[0], {}).setdefault(r[1].functor, []).append(row_norm(r[2:]))
    states = [[]]
    for f in init:
        states = [add(sx, s, f) for s in states]
    sx.check(agrees(sx, states[0], got.get(99, {})), "initial facts form a set")
    for i, (kind, f) in enumerate(steps):
        states = apply(sx, kind, f, states)
        ok = [agrees(sx, s, got.get(i, {})) for s in states]
        sx.check(sx.Or(*ok), "contents after each update are those of the set")
        if len(states) > 1:
            states = [s for s, c in zip(states, ok) if sx.truth(c)]


@harness("C12", quick=[{"forms": list(range(26)), "n_ops": 1, "n_init": 2}, {"forms": list(range(26)), "n_ops": 2, "n_init": 1},
                       {"forms": SMALL, "n_ops": 3, "n_init": 0}],
         thorough=[{"forms": list(range(26)), "n_ops": 3, "n_init": 1}, {"forms": SMALL, "n_ops": 4, "n_init": 1}],
         reach=["contents after each update are those of the set"])
def updates(sx, forms, n_ops, n_init):
    """random access update sequences against a mathematical set"""
    sequence(sx, forms, n_ops, n_init)


@harness("C12", reach=["only ground facts are stored"])
def ground_only(sx):
    """adding a fact with an unbound variable or wildcard is an error and adds nothing"""
    k = sx.numeral(sx.num("k", 0, 2))
    bad = sx.choose("bad", ["X", "_", "f(X)", "[1, X]", "[X|[]]", "[%s|T]" % k, "X + %s" % k])
    form = sx.choose("form", ["+p(%s)", "-+p(%s)", "+p(1)[s(%s)]", "+p(%s, %s)"])
    src = form % ((k, bad) if form.count("%s") == 2 else bad)
    w = World(sx)
    ag = w.build("!s.\n+!s <- +p(7); .rec(before); %s; .rec(after).\n+p(Y) <- .rec(event).\n" % src)
    status = w.run()
    sx.observe("status", status)
    sx.check(status == "error", "only ground facts are stored")
    sx.check(not any(r[0].functor == "after" for r in w.recs()), "the step fails")
    sx.check(not any(not agentspeak.is_ground(b, {}) for g in ag.beliefs.values() for b in g), "nothing open is stored")


@harness("C12", reach=["bound to the removed fact"])
def removal_binds(sx):
    """-p(X) takes out one matching fact and X is that fact's value"""
    x, y = sx.num("x", 0, 2), sx.num("y", 0, 2)
    N = sx.numeral
    w = World(sx)
    pat = sx.choose("pat", ["X", "f(X)", "[X|_]"])
    mk = {"X": "%s", "f(X)": "f(%s)", "[X|_]": "[%s, 1]"}[pat]
    w.build("p(%s). p(%s). p(g).\n!s.\n+!s <- -p(%s); .rec(X); for (p(Z)) { .rec(left, Z) }.\n"
            % (mk % N(x), mk % N(y), pat))
    sx.check(w.run() == "ok", "runs")
    rows = w.recs()
    got = rows[0][0]
    left = [r[1] for r in rows[1:]]
    vals = [mkv(mk, x), mkv(mk, y), agentspeak.Literal("g")]
    distinct = vals if not sx.truth(sx.eq(x, y)) else vals[1:]
    sx.check(len(left) == len(distinct) - 1, "exactly one fact removed")
    sx.check(sx.Or(*[sx.And(sx.same(mkv(mk, got) if pat != "X" else got, v_), sx.multiset([unll(t) for t in left], distinct[:i] + distinct[i + 1:]))
                     for i, v_ in enumerate(distinct) if not (pat != "X" and v_ is vals[2])]), "bound to the removed fact")


def unll(t):
    return tuple(t) if isinstance(t, agentspeak.LinkedList) else t


def mkv(mk, x):
    return {"%s": lambda: x, "f(%s)": lambda: agentspeak.Literal("f", [x]), "[%s, 1]": lambda: (x, 1)}[mk]()
