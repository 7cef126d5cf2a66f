"""C16: scheduling and waiting, with a symbolic clock."""

import agentspeak.runtime

from symx.api import harness
from .prog import *

BOUNDS = {
    "quick": "1-2 agents with 1-2 intentions of up to 2 waits each, timeouts 0..3 s (symbolic), a clock whose readings advance by symbolic amounts 0..2 s (optionally one step back), sleeps that oversleep by 0..2 s, at most 40 readings; events from another intention or agent; run and run_agent",
    "thorough": "as quick with 3 intentions or agents, waits inside of subgoals and loops, and more readings"}
OUTSIDE = ["sleeps that return early", "timeouts that are not whole seconds", "the order in which agents take turns", "real time"]
ASSUMPTIONS = ["the clock advances eventually (by at least 1 s per reading after the first few readings)"]

STEP = 6


class Clock(object):
    """Stands for the time module of agentspeak.runtime; times are symbolic."""

    def __init__(self, sx, start=0, free=4, back=False, top=2):
        self.sx = sx
        self.now = start
        self.last = start
        self.readings = 0
        self.free = free
        self.back = back
        self.top = top
        self.log = []
        self.on_sleep = None
        self.limit = 40

    def time(self):
        sx = self.sx
        self.readings += 1
        if self.readings > self.limit:
            sx.fail("terminates")
        if self.readings <= self.free:
            d = sx.num("tick", -1 if self.back and self.readings == 2 else 0, self.top)
        else:
            d = 1
        self.now = self.now + d
        self.last = self.now
        self.log.append(self.now)
        return self.now

    def sleep(self, d):
        sx = self.sx
        sx.check(sx.le(0, d), "never sleeps for a negative time")
        if self.on_sleep:
            self.on_sleep(d)
        self.now = self.now + d
        if self.readings <= self.free:
            self.now = self.now + sx.num("over", 0, self.top)

    def __getattr__(self, name):
        return getattr(self.saved, name)

    def __enter__(self):
        self.saved = agentspeak.runtime.time
        agentspeak.runtime.time = self
        return self

    def __exit__(self, *exc):
        agentspeak.runtime.time = self.saved


class Timed(World):
    """Notes the deadline of each .wait by its label in the preceding .at(label)."""

    def __init__(self, sx, clock):
        super(Timed, self).__init__(sx)
        self.clock = clock
        self.waiting = {}      # label -> deadline of waits not resumed yet
        self.label = {}
        for k in (1, 2):
            self.wrap(k)
        me = self

        @self.actions.add(".at", 1)
        def _at(agent, term, intention):
            me.label[agent.name] = agentspeak.grounded(term.args[0], intention.scope)
            yield

        @self.actions.add(".woke", 1)
        def _woke(agent, term, intention):
            me.woke(agent, agentspeak.grounded(term.args[0], intention.scope))
            yield

        clock.on_sleep = self.on_sleep
        self.at_sleep = None

    def wrap(self, arity):
        orig = agentspeak.stdlib.actions.lookup(".wait", arity)
        me = self

        @self.actions.add(".wait", arity)
        def _wait(agent, term, intention):
            me.clock.log = []
            ms = agentspeak.grounded(term.args[-1], intention.scope)
            for _ in orig(agent, term, intention):
                until = None
                if me.clock.log:
                    until = me.clock.log[-1] + ms / 1000
                me.waiting[(agent.name, me.label[agent.name])] = until
                yield

    def woke(self, agent, k):
        sx = self.sx
        until = self.waiting.pop((agent.name, k), "none")
        if until == "none":
            sx.fail("each wait is resumed once")
        if until is not None and k not in getattr(self, "early_ok", ()):
            sx.check(sx.le(until, self.clock.last), "never resumes before its time has passed")
        self.out.append((agent.name, (k,)))

    def on_sleep(self, d):
        sx = self.sx
        if self.at_sleep:
            self.at_sleep()
        ends = [u for u in self.waiting.values() if u is not None]
        sx.check(bool(ends), "sleeps only for a deadline")
        m = ends[0]
        for u in ends[1:]:
            m = sx.If(sx.lt(u, m), u, m)
        due = sx.lt(m, self.clock.last)
        sx.check(sx.Or(sx.And(due, sx.eq(d, 0)), sx.And(sx.Not(due), sx.eq(d, m - self.clock.last))), "sleeps until the earliest deadline")


def seconds(sx, name, hi=3):
    x = sx.num(name, 0, hi)
    return x, "%s * 1000" % sx.numeral(x)


def go(w, how, agents):
    if how == "run":
        w.env.run()
    else:
        for ag in agents:
            w.env.run_agent(ag)


@harness("C16", quick=[{"n": n_, "how": h} for n_ in (1, 2) for h in ("run", "run_agent")] + [{"n": 2, "how": "agents"}],
         thorough=[{"n": n_, "how": h} for n_ in (1, 2, 3) for h in ("run", "run_agent", "agents")],
         path_s=60, reach=["never sleeps for a negative time", "sleeps until the earliest deadline", "never resumes before its time has passed"])
def waits(sx, n, how):
    """waits for a time in several intentions or agents"""
    free = 4 if n < 3 else 3
    clock = Clock(sx, free=free, back=sx.flag("back"))
    w = Timed(sx, clock)
    per = 2 if n == 1 else 1
    want = {}
    agents = []
    src, names = [], []
    for i in range(n):
        p = ""
        for k in range(per):
            _, t = seconds(sx, "t%d%d" % (i, k))
            p += ".at(%d); .wait(%s); .woke(%d); .rec(%d); " % (10 * i + k, t, 10 * i + k, 10 * i + k)
        src.append("!g%d. +!g%d <- %s.rec(done).\n" % (i, i, p))
    with clock:
        if how == "agents":
            for i in range(n):
                agents.append(w.build(src[i], "ag%d" % i))
            w.build("+x.", "lazy")
            w.env.run()
        else:
            ag = w.build("".join(src) + "!q. +!q <- .rec(quick).\n")
            go(w, how, [ag])
        sx.check(len(w.waiting) == 0, "never ends with work outstanding")
        total = len(w.out)
        w.env.run()
    sx.check(len(w.out) == total, "idle")
    for i in range(n):
        name = "ag%d" % i if how == "agents" else "ag"
        mine = [r[0] for a_, r in w.out if a_ == name and not isinstance(r[0], Literal) and r[0] // 10 == i]
        sx.check(mine == [x for k in range(per) for x in (10 * i + k, 10 * i + k)], "the remaining steps execute")
    done = [1 for _, r in w.out if isinstance(r[0], Literal) and r[0].functor == "done"]
    sx.check(len(done) == n, "the remaining steps execute")


NESTED = {
    "sub": "+!g <- !w(%s); .rec(1).\n+!w(T) <- .at(0); .wait(T); .woke(0).\n",
    "loop": "+!g <- for (.range(2, I)) { .at(0); .wait(%s); .woke(0) }; .rec(1).\n",
    "branch": "+!g <- if (true) { .at(0); .wait(%s); .woke(0) }; .rec(1).\n",
    "belief": "+!g <- +b(%s); .rec(1).\n+b(T) <- .at(0); .wait(T); .woke(0).\n",
    "cond": "+!g : .at(0) & .wait(%s) <- .woke(0); .rec(1).\n",
    "while": "n(2).\n+!g <- while (n(X) & X > 0) { -+n(X - 1); .at(0); .wait(%s); .woke(0) }; .rec(1).\n",
}


@harness("C16", cases=[{"shape": s, "how": h} for s in sorted(NESTED) for h in ("run", "run_agent")])
def nested(sx, shape, how):
    """waits inside of subgoals, loops, branches and contexts"""
    clock = Clock(sx, free=3)
    w = Timed(sx, clock)
    _, t = seconds(sx, "t", 20)
    w.at_sleep = lambda: sx.check(len([1 for _, r in w.out if isinstance(r[0], Literal)]) == 2, "other intentions are unaffected by the wait")
    with clock:
        ag = w.build("!g.\n!h.\n" + NESTED[shape] % t + "+!h <- .rec(o); .rec(o).\n")
        go(w, how, [ag])
    times = 2 if shape in ("loop", "while") else 1
    got = [r[0] for _, r in w.out if not isinstance(r[0], Literal)]
    sx.check(len(w.waiting) == 0 and got == [0] * times + [1], "the remaining steps execute")
    sx.check(len(w.out) == times + 3, "other intentions are unaffected by the wait")


PLACES = ["+!g <- .at(0); .wait(\"%s\"%s); .woke(0); .rec(done).\n",
          "+!g <- !w; .rec(done).\n+!w <- .at(0); .wait(\"%s\"%s); .woke(0).\n",
          "+!g <- !u; .rec(done).\n+!u <- +b(1); true.\n+b(X) <- if (X > 0) { .at(0); .wait(\"%s\"%s); .woke(0) }.\n"]


@harness("C16", cases=[{"src": s, "how": h} for s in ("intention", "agent") for h in ("run",)] + [{"src": "intention", "how": "run_agent"}],
         path_s=60, reach=["resumes when the event occurs or the time has passed"])
def events(sx, src, how):
    """waiting for an event with or without a timeout"""
    clock = Clock(sx, free=3)
    w = Timed(sx, clock)
    w.early_ok = (0,)
    x, y = sx.num("x", 0, 1), sx.num("y", 0, 1)
    te, e = seconds(sx, "e", 2)
    tt, t = seconds(sx, "t", 30)
    timeout = sx.flag("timeout")
    kind = sx.choose("event", ["+ev(%s)", "+!ev(%s)", "-ev(%s)"])
    pkind = sx.choose("posted", ["+ev(%s)", "+!ev(%s)", "-ev(%s)"])
    head = kind % sx.numeral(x)
    post = {"+ev(%s)": "+ev(%s)", "+!ev(%s)": "!ev(%s)", "-ev(%s)": "-ev(%s)"}[pkind] % sx.numeral(y)
    if src == "agent":
        post = ".send(ag, %s, ev(%s))" % ({"+": "tell", "!": "achieve", "-": "untell"}[post[0]], sx.numeral(y))
    match = sx.And(kind == pkind, sx.eq(x, y))
    waiter = "!g.\nev(0). ev(1).\n" + sx.choose("place", PLACES) + "+!ev(_) <- true.\n"
    # the event text is a string constant: the symbolic value goes in through a concrete choice
    xv = 0 if sx.truth(sx.eq(x, 0)) else 1
    waiter = waiter % (kind % xv, ", " + t if timeout else "")
    poster = "!h.\n+!h <- .at(1); .wait(%s); .woke(1); %s; .rec(posted).\n+!ev(_) <- true.\n" % (e, post)
    with clock:
        if src == "agent":
            if pkind == "-ev(%s)":
                waiter += "ev(0)[source(poster)]. ev(1)[source(poster)].\n"
            ag = w.build(waiter)
            w.build(poster, "poster")
            agents = [ag]
        else:
            ag = w.build(waiter + poster.replace("+!ev(_) <- true.\n", ""))
            agents = [ag]
        go(w, how, agents)
        left = len(w.waiting)
        recs = len(w.out)
        w.env.run()
    sx.check(len(w.out) == recs, "idle")
    done = any(isinstance(r[0], Literal) and r[0].functor == "done" for _, r in w.out)
    posted = any(isinstance(r[0], Literal) and r[0].functor == "posted" for _, r in w.out)
    sx.check(posted, "the remaining steps execute")
    sx.check((left == 0) == done, "the remaining steps execute")
    if timeout:
        sx.check(done, "resumes when the event occurs or the time has passed")
        # resumed by the event only if that matched
        order = [r[0].functor if isinstance(r[0], Literal) else r[0] for _, r in w.out]
        sx.check(sx.Or(match, sx.le(tt, clock.last)), "never resumes before")
    else:
        sx.check(sx.Iff(done, match), "resumes when the event occurs or the time has passed")


@harness("C16", cases=[{"how": h} for h in ("run", "run_agent")])
def event_early(sx, how):
    """an event wakes the waiting intention at once, long before its timeout"""
    clock = Clock(sx, free=3)
    w = Timed(sx, clock)
    w.early_ok = (0,)
    _, e = seconds(sx, "e", 2)
    with clock:
        ag = w.build("!g.\n!h.\n+!g <- .at(0); .wait(\"+ev\", 1000000); .woke(0); .rec(done).\n"
                     "+!h <- .at(1); .wait(%s); .woke(1); +ev; .rec(posted).\n" % e)
        go(w, how, [ag])
    sx.check(sx.lt(clock.last, 900), "resumes when the event occurs")
    sx.check(len(w.waiting) == 0, "the remaining steps execute")


@harness("C16", quick=[{"n": 2}, {"n": 3}], reach=["agents take turns"])
def turns(sx, n):
    """agents with the same number of steps left stay within one step of each other, also
    while others wait; within an agent the first intention that can proceed goes first"""
    clock = Clock(sx, free=2)
    w = Timed(sx, clock)
    k = sx.num("k", 0, 4)
    _, t = seconds(sx, "t", 2)
    who = sx.choose("waiter", list(range(n)) + [None])
    body = "; ".join(".rec(%d)" % i for i in range(5))
    with clock:
        for i in range(n):
            pre = "!w. +!w <- .at(0); .wait(%s); .woke(0).\n" % t if who == i else ""
            w.build(pre + "!g. !h. +!g <- %s. +!h <- .rec(5); .rec(6).\n" % body, "t%d" % i)
        w.env.run()
    names = ["t%d" % i for i in range(n) if i != who]
    seq = [(a_, r[0]) for a_, r in w.out if a_ in names]
    cnt = {a_: 0 for a_ in names}
    for a_, r in seq:
        sx.check(r == cnt[a_], "the first intention that can proceed goes first")
        cnt[a_] += 1
        sx.check(max(cnt.values()) - min(cnt.values()) <= 1, "agents take turns")
    sx.check(all(c == 7 for c in cnt.values()), "all steps execute")
    if who is not None:
        mine = [r[0] for a_, r in w.out if a_ == "t%d" % who]
        sx.check(sorted(mine) == [0, 0, 1, 2, 3, 4, 5, 6] and len(w.waiting) == 0, "all steps execute")


@harness("C16")
def resumed_first(sx):
    """an intention whose time has passed proceeds again before later intentions"""
    clock = Clock(sx, free=8, top=1)
    clock.limit = 60
    w = Timed(sx, clock)
    t, ts = seconds(sx, "t", 1)
    steps = "; ".join(".rec(%d)" % i for i in range(4))
    seen = []
    with clock:
        w.build("!g. !h. +!g <- .at(0); .wait(%s); .woke(0); .rec(b); .rec(c). +!h <- %s.\n" % (ts, steps))
        w.env.run()
    names = [r[0].functor if isinstance(r[0], Literal) else r[0] for _, r in w.out]
    i = names.index("b")
    sx.check(names[i - 1] == 0 and names[i + 1] == "c", "the first intention that can proceed goes first")
    sx.check(len(names) == 7, "all steps execute")


@harness("C16", cases=[{"how": h} for h in ("run", "run_agent")])
def never(sx, how):
    """an agent that waits for an event that nothing can post is idle"""
    clock = Clock(sx, free=2)
    w = Timed(sx, clock)
    _, t = seconds(sx, "t", 2)
    first = sx.flag("first")
    with clock:
        src = ["!g. +!g <- .at(0); .wait(\"+ev\"); .woke(0).\n", "!h. +!h <- .at(1); .wait(%s); .woke(1).\n" % t]
        ag = w.build("".join(src if first else src[::-1]))
        go(w, how, [ag])
        sx.check(len(w.waiting) == 1 and len(w.out) == 1, "ends exactly when idle")
        go(w, how, [ag])
        sx.check(len(w.waiting) == 1 and len(w.out) == 1, "ends exactly when idle")
        # it can still be woken up later by the host
        ag.call(agentspeak.Trigger.addition, agentspeak.GoalType.belief, Literal("ev"), agentspeak.runtime.Intention())
        go(w, how, [ag])
        sx.check(len(w.waiting) == 0 and len(w.out) == 2, "resumes when the event occurs")


@harness("C16", cases=[{"how": h} for h in ("run", "run_agent")])
def event_for_all(sx, how):
    """one event resumes every intention that waits for it, and no other"""
    clock = Clock(sx, free=2)
    w = Timed(sx, clock)
    w.early_ok = (0, 1, 2)
    y = sx.choose("y", [0, 1])
    xs = [sx.choose("x", [0, 1, "_"]) for _ in range(3)]
    src = ""
    for i, x in enumerate(xs):
        src += "!g%d. +!g%d <- %s.\n" % (i, i, sx.choose("in", ["!w%d" % i, ".at(%d); .wait(\"+ev(%s)\"); .woke(%d); .rec(%d)" % (i, x, i, i)]))
        src += "+!w%d <- .at(%d); .wait(\"+ev(%s)\"); .woke(%d); .rec(%d).\n" % (i, i, x, i, i)
    with clock:
        ag = w.build(src + "!h. +!h <- .rec(h); .rec(h); !p; .rec(h). +!p <- +ev(%d).\n" % y)
        go(w, how, [ag])
    got = [r[0] for _, r in w.out if not isinstance(r[0], Literal)]
    want = [i for i, x in enumerate(xs) if x in ("_", y)]
    sx.check([g for i, g in enumerate(got) if g not in got[:i]] == want and len(w.waiting) == 3 - len(want), "resumes when the event occurs")
