"""C28: agents driven from Python."""

from symx.api import harness
from .prog import *
from .prog import lst as L

BOUNDS = {
    "quick": "every sequence of 3 operations (beliefs added, removed and tested silently or with events, goals posted and dropped, runs in 4 ways) with symbolic numbers in [0,2], followed by a run; 2 operations in the middle of a plan; 12 kinds of Python terms given to beliefs, goals and queries, built directly or with variables bound before; agents created by 7 means, at every point of another's plan, with symbolic numbers",
    "thorough": "4 operations; 3 in the middle of a plan"}
OUTSIDE = ["changing the agent's tables directly", "operations from several threads", "removing beliefs with a pattern that several beliefs match"]
ASSUMPTIONS = ["single steps mean what they mean in plans (C12-C15, C24)"]

A_, B_ = v("A"), v("B")
PLANS = [("+!", a("g", A_), ("cmp", "<", A_, n(2)), [("rec", a("g"), A_), ("achieve", a("h", A_)), ("rec", a("end_g"), A_)]),
         ("+!", a("h", A_), ("lit", "p", A_), [("rec", a("yes"), A_)]),
         ("+!", a("h", A_), ("true",), [("rec", a("no"), A_)]),
         ("+!", a("mid"), ("true",), [("rec", a("before")), ("host",), ("rec", a("after"))]),
         ("+", a("p", A_), ("true",), [("rec", a("added"), A_)]),
         ("-", a("p", A_), ("true",), [("rec", a("removed"), A_)])]
SOURCE = """
p(1).
+!g(A) : A < 2 <- .rec(g, A); !h(A); .rec(end_g, A).
+!h(A) : p(A) <- .rec(yes, A).
+!h(A) <- .rec(no, A).
+!mid <- .rec(before); .host; .rec(after).
+p(A) <- .rec(added, A).
-p(A) <- .rec(removed, A).
"""
T = agentspeak.Trigger
G = agentspeak.GoalType


class HostRef(RefAgent):
    def __init__(self, sx):
        super(HostRef, self).__init__(sx, [], [], PLANS)
        self.heads = []
        self.host = None

    def step(self, st, s):
        if st[0] == "host":
            self.host()
            return s
        return super(HostRef, self).step(st, s)

    def select(self, trigger, goal, s):
        got = super(HostRef, self).select(trigger, goal, s)
        if got is not None and trigger == "+!":
            self.heads.append((got[0], goal))
        return got

    def post(self, trigger, goal):
        got = self.select(trigger, goal, {})
        if got is not None:
            self.queue.append(got)

    def head_of(self, body):
        for b, goal in self.heads:
            if b is body:
                return goal
        return None

    def has(self, x):
        return any(self.equal(a("p", n(x)), b) for b in self.beliefs)

    def drop(self, goal):
        self.queue = [(b, s) for b, s in self.queue if self.head_of(b) is None or not self.equal(self.head_of(b), goal)]

    def discard(self, x):
        for i, b in enumerate(self.beliefs):
            if self.equal(b, a("p", n(x))):
                del self.beliefs[i]
                return True
        return False

    def run_queue(self):
        while self.queue:
            self.body(*self.queue.pop(0))


def I():
    return agentspeak.runtime.Intention()


OPS = ["add", "add with event", "remove", "remove with event", "test", "ask", "goal", "drop goal"]
RUNS = ["agent", "run_agent", "environment", "steps"]


def operation(sx, op, x, w, ag, ref):
    """One operation on the agent and on the reference."""
    lit_ = lambda f: Literal(f, (x,))
    if op == "add":
        ag.add_belief(lit_("p"), {})
        ref.add(a("p", n(x)))
    elif op == "add with event":
        sx.check(ag.call(T.addition, G.belief, lit_("p"), I()), "the operation is carried out")
        ref.add(a("p", n(x)))
        ref.post("+", a("p", n(x)))
    elif op == "remove":
        sx.check(ag.remove_belief(lit_("p"), I()) == ref.discard(x), "tells whether there was such a belief")
    elif op == "remove with event":
        sx.check(ag.call(T.removal, G.belief, lit_("p"), I()), "the operation is carried out")
        if ref.discard(x):
            ref.post("-", a("p", n(x)))
    elif op == "test":
        sx.check(ag.test_belief(lit_("p"), I()) == ref.has(x), "tells whether there is such a belief")
    elif op == "ask":
        X, i = Var(), I()
        got = ag.test_belief(Literal("p", (X,)), i)
        sx.check(got == bool(ref.beliefs), "tells whether there is such a belief")
        if got:
            found = agentspeak.grounded(X, i.scope)
            sx.check(sx.Or(*[sx.eq(found, b[2][1]) for b in ref.beliefs]), "the belief that was found")
    elif op == "goal":
        try:
            ok = ag.call(T.addition, G.achievement, lit_("g"), I())
        except AslError:
            ok = False
        try:
            ref.post("+!", a("g", n(x)))
            want = True
        except RefFail:
            want = False
        sx.check(ok == want, "a goal nobody can achieve is an error")
    elif op == "drop goal":
        sx.check(ag.call(T.removal, G.achievement, lit_("g"), I()), "the operation is carried out")
        ref.drop(a("g", n(x)))


def run(how, w, ag):
    if how == "agent":
        ag.run()
    elif how == "run_agent":
        w.env.run_agent(ag)
    elif how == "environment":
        w.env.run()
    else:
        while ag.step():
            pass


def agree(sx, w, ref):
    sx.check(rows_equal(sx, [row_norm(r) for r in w.recs()], [flat_row(r) for r in ref.out], True), "the same as in a plan")


@harness("C28", quick=[{"count": 2, "how": h} for h in RUNS] + [{"count": 3, "how": "run_agent"}], thorough=[{"count": 3, "how": h} for h in RUNS] + [{"count": 4, "how": "steps"}], path_s=30,
         reach=["the same as in a plan", "the belief that was found", "a goal nobody can achieve is an error"])
def between_runs(sx, count, how):
    """operations before, between and after runs"""
    w = World(sx)
    ag = w.build(SOURCE)
    ref = HostRef(sx)
    ref.add(a("p", n(1)))
    ref.post("+", a("p", n(1)))
    for _ in range(count):
        op = sx.choose("op", OPS + ["run"])
        if op == "run":
            run(how, w, ag)
            ref.run_queue()
            agree(sx, w, ref)
        else:
            operation(sx, op, sx.num("x", 0, 2), w, ag, ref)
    run(how, w, ag)
    ref.run_queue()
    agree(sx, w, ref)
    beliefs = [b.args[0] for bs in ag.beliefs.values() for b in bs]
    sx.check(len(beliefs) == len(ref.beliefs), "the beliefs are those of the same steps")
    for b in ref.beliefs:
        sx.check(sx.Or(*[sx.eq(b[2][1], y) for y in beliefs]), "the beliefs are those of the same steps")


@harness("C28", quick=[{"count": 1}, {"count": 2}], thorough=[{"count": 3}], path_s=30, reach=["the same as in a plan"])
def in_a_plan(sx, count):
    """operations by an action in the middle of a plan"""
    w = World(sx)
    ref = HostRef(sx)
    plan, done = [], []

    @w.actions.add(".host", 0)
    def host(agent, term, intention):
        for op, x in plan:
            operation(sx, op, x, w, agent, ref)
        done.append(True)
        yield

    ag = w.build(SOURCE)
    ref.add(a("p", n(1)))
    ref.post("+", a("p", n(1)))
    for _ in range(count):
        plan.append((sx.choose("op", OPS), sx.num("x", 0, 2)))
    ag.call(T.addition, G.achievement, Literal("mid"), I())
    ref.post("+!", a("mid"))
    if sx.flag("goal waits"):
        y = sx.num("y", 0, 1)
        ag.call(T.addition, G.achievement, Literal("g", (y,)), I())
        ref.post("+!", a("g", n(y)))
    while ref.queue:
        body, s = ref.queue.pop(0)
        if body and body[0] == ("rec", a("before")):
            ref.step(body[0], s)
            while not done:    # the action carries out the operations on both
                sx.check(ag.step(), "the same as in a plan")
            ref.step(body[2], s)
        else:
            ref.body(body, s)
    ag.run()
    agree(sx, w, ref)


def term(sx, kind):
    """(term, scope, normal form of its value)"""
    x = sx.num("x", 0, 2)
    X, Y = Var(), Var()
    t = {"num": lambda: x, "half": lambda: sx.num("h", 0, 3, kind="float", den=2), "neg": lambda: -x, "str": lambda: "a\"b", "bool": lambda: True,
         "tuple": lambda: (x, "s", (x,)), "empty": lambda: (), "linked": lambda: agentspeak.LinkedList(x, agentspeak.LinkedList(Literal("b"), ())),
         "ann": lambda: Literal("f", (x,), (Literal("s", (x,)),)), "deep": lambda: Literal("f", (Literal("g", (x, ())), x)),
         "bound": lambda: X, "inside": lambda: Literal("f", (X, (X, x)))}[kind]()
    scope = {}
    if kind in ("bound", "inside"):
        value = sx.choose("value", [x, "s", Literal("c", (x,)), (x, x)])
        scope[X] = Y
        scope[Y] = value
        want = value if kind == "bound" else Literal("f", (value, (value, x)))
    else:
        want = t
    return t, scope, want


TERMS = ["num", "half", "neg", "str", "bool", "tuple", "empty", "linked", "ann", "deep", "bound", "inside"]


@harness("C28", cases=[{"kind": k} for k in TERMS], reach=["terms arrive unchanged"])
def terms(sx, kind):
    """terms given to goals, beliefs and queries keep their values; nothing is bound outside"""
    from symx.api import norm, flat_ll
    w = World(sx)
    ag = w.build("+!see(T) <- .rec(T); ?b(T); .rec(T).\n+b(T) <- .rec(T).\n")
    t, scope, want = term(sx, kind)
    before = dict(scope)
    i = I()
    i.scope.update(scope)
    silent = sx.flag("silent")
    if silent:
        ag.add_belief(Literal("b", (t,)), i.scope)
    else:
        ag.call(T.addition, G.belief, Literal("b", (t,)), i)
    ag.call(T.addition, G.achievement, Literal("see", (t,)), i)
    sx.check(dict(i.scope) == before, "nothing is bound outside")
    i.scope.clear()
    w.env.run_agent(ag)
    rows = w.recs()
    sx.check(len(rows) == (2 if silent else 3), "terms arrive unchanged")
    for r in rows:
        sx.check(sx.same_n(flat_ll(norm(r[0])), flat_ll(norm(want))), "terms arrive unchanged")
    X, j = Var(), I()
    sx.check(ag.test_belief(Literal("b", (X,)), j), "terms arrive unchanged")
    sx.check(sx.same_n(flat_ll(norm(agentspeak.grounded(X, j.scope))), flat_ll(norm(want))), "terms arrive unchanged")
    k = I()
    k.scope.update(scope)
    sx.check(ag.remove_belief(Literal("b", (t,)), k), "terms arrive unchanged")
    sx.check(not ag.test_belief(Literal("b", (Var(),)), I()), "terms arrive unchanged")


CREATED = """!start.
+!start : q(X) <- .rec(first, X); .send(main, tell, from(X)); !count(X).
+!count(X) : X > 0 <- .rec(left, X); !count(X - 1).
+!count(X) <- .rec(over, X).
+told(X)[source(S)] <- .rec(told, X, S).
"""
CREATOR = """
!go.
+!go <- .rec(opened); !pause(P); STEP; .rec(closed); !pause(1); .rec(stop).
+!pause(X) : X > 0 <- .rec(pause, X); !pause(X - 1).
+!pause(X).
+from(X)[source(S)] <- .rec(heard, X, S); .send(S, tell, told(X)).
"""
OTHER = "!a(2).\n+!a(X) : X > 0 <- .rec(a, X); !a(X - 1).\n+!a(X) <- .rec(done).\n"


@harness("C28", cases=[{"how": h} for h in ("action", "function", "query", "many", "step", "nested", "invalid")], path_s=30,
         reach=["a new agent does its work in the same run", "the others go on as before"])
def created(sx, how):
    """agents created while the environment runs take part in the run"""
    w = World(sx)
    x, pause = sx.num("x", 0, 2), sx.num("pause", 0, 2)
    made, failed = [], []

    def create():
        src = agentspeak.StringSource("new.asl", "q(" + sx.numeral(x) + ").\n" + CREATED)
        if how == "many":
            made.extend(w.env.build_agents(src, 2, w.actions))
        elif how == "invalid":
            before = list(w.env.agents)
            try:
                w.env.build_agent(agentspeak.StringSource("new.asl", sx.choose("bad", ["!start.\n+!start <- .rec(1", "p(X) :- q(X + a).", "!g(X.", "!start.\n+!start <- X = 1 + a."])), w.actions)
            except (AslError, agentspeak.AggregatedError):
                failed.append(True)
            sx.check(list(w.env.agents) == before, "no agent from an invalid program")
        else:
            made.append(w.env.build_agent(src, w.actions))

    @w.actions.add_procedure(".create", ())
    def create_action():
        create()

    @w.actions.add_function(".created", ())
    def create_function():
        create()
        return len(made)

    @w.actions.add(".create_chain", 0)
    def create_chain(agent, term, intention):
        made.append(w.env.build_agent(agentspeak.StringSource("new.asl", "!start.\n+!start <- .rec(chain); .create.\n"), w.actions))
        yield

    step = {"action": ".create", "many": ".create", "invalid": ".create", "function": ".created(N); .rec(made, N)", "query": "if (.created(N) & N > 0) { .rec(made) }",
            "nested": ".create_chain", "step": "true"}[how]
    main = w.build(CREATOR.replace("STEP", step).replace("+!go <-", "+!go : pause(P) <-") + "pause(" + sx.numeral(pause) + ").\n", "main")
    w.build(OTHER, "other")
    if how == "step":
        # created between single steps of the agents
        at = sx.choose("at", [0, 1, 4, 9])
        for _ in range(at):
            main.step()
        create()
    with Capture():
        sx.check(w.run() == "ok", "the others go on as before")
    k = {"many": 2, "invalid": 0}.get(how, 1)
    news = [ag for ag in w.env.agents.values() if ag.name not in ("main", "other")]
    if how == "nested":
        sx.check([ag.name for ag in news if ag is made[0]] != [] and len(news) == 2, "a new agent does its work in the same run")
        sx.check([row_norm(r) for r in w.recs(made[0].name)] == [row_norm((Literal("chain"),))], "a new agent does its work in the same run")
        news = [ag for ag in news if ag is not made[0]]
    sx.check(len(news) == k and len(failed) == (how == "invalid"), "a new agent does its work in the same run")
    for ag in news:
        got = [row_norm(r) for r in w.recs(ag.name)]
        want = [(Literal("first"), x)] + [(Literal("left"), x - i) for i in range(2) if sx.truth(sx.lt(i, x))] + [(Literal("over"), 0)]
        told = (Literal("told"), x, Literal("main"))
        sx.check(rows_equal(sx, got, [row_norm(r) for r in want + [told]], False), "a new agent does its work in the same run")
        rest = [row_norm(r) for r in w.recs(ag.name) if len(r) != 3]
        sx.check(rows_equal(sx, rest, [row_norm(r) for r in want], True), "a new agent does its work in the same run")
    got = [row_norm(r) for r in w.recs("main")]
    want = [(Literal("opened"),)] + [(Literal("pause"), pause - i) for i in range(2) if sx.truth(sx.lt(i, pause))]
    want += {"function": [(Literal("made"), 1)], "query": [(Literal("made"),)]}.get(how, [])
    want += [(Literal("closed"),), (Literal("pause"), 1), (Literal("stop"),)]
    heard = [(Literal("heard"), x, Literal(ag.name)) for ag in news]
    sx.check(rows_equal(sx, got, [row_norm(r) for r in want + heard], False), "the others go on as before")
    sx.check(rows_equal(sx, [row_norm(r) for r in w.recs("other")], [row_norm(r) for r in [(Literal("a"), 2), (Literal("a"), 1), (Literal("done"),)]], True), "the others go on as before")
