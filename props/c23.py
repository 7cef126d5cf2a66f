"""C23: the helpers for simulations."""

import simse_helper

from symx.api import harness

BOUNDS = {
    "quick": "one entry with symbolic start, interval and end in -2..7 over 6 ticks in 2 calls, two entries with -2..5 over 4 ticks (interval and end may be missing), a second entry registered between calls or by a callback; graphs of 3 nodes with 3 operations (increments with symbolic weights, queries); choices among 0-4 items for all outcomes of the random source",
    "thorough": "-2..14 over 12 ticks, two entries with -2..7 over 6 ticks; 4-5 operations"}
OUTSIDE = ["starts, intervals and ends that are not integers", "how likely each random choice is"]
ASSUMPTIONS = []


def entry(sx, i, lo, hi):
    start = sx.num("start", lo, hi)
    interval = sx.num("interval", 1, hi) if sx.flag("repeats") else None
    end = sx.num("end", lo, hi) if sx.flag("has an end") else None
    return start, interval, end


def due(sx, e, t):
    start, interval, end = e
    c = [sx.eq(start, t)]
    if interval is not None:
        # some number of intervals after the start
        c += [sx.And(sx.lt(start, t), sx.Or(*[sx.eq(start + k * interval, t) for k in range(1, t + 4)]))]
    r = sx.Or(*c)
    return r if end is None else sx.And(r, sx.le(t, end))


def calls(sx, total, n):
    """total ticks divided into n calls (possibly of no ticks)"""
    out = []
    for _ in range(n - 1):
        k = sx.choose("call", list(range(total - sum(out) + 1)))
        out.append(k)
    return out + [total - sum(out)]


def decide(sx, schedule, entries, since, log, total):
    """The log is exactly: for each tick in order, the due entries in registration order."""
    at = 0
    conds = []
    for t in range(total):
        for i, e in enumerate(entries):
            fired = at < len(log) and log[at] == (t, i)
            want = due(sx, e, t) if since[i] <= t else False
            conds.append(sx.Iff(want, fired))
            at += fired
    sx.check(at == len(log), "callbacks run in order and not more often")
    sx.check(sx.And(*conds), "a callback runs exactly at its ticks")
    sx.check(sx.eq(schedule.tick, total), "the schedule counts the ticks")


@harness("C23", quick=[{"entries": 1, "hi": 7, "total": 6, "decorator": d} for d in (False, True)] + [{"entries": 2, "hi": 4, "total": 4, "decorator": False}],
         thorough=[{"entries": 1, "hi": 14, "total": 12, "decorator": True}, {"entries": 2, "hi": 7, "total": 6, "decorator": False}], path_s=30,
         reach=["a callback runs exactly at its ticks", "callbacks run in order and not more often"])
def schedules(sx, entries, hi, total, decorator):
    """callbacks with any start, interval and end"""
    s = simse_helper.Schedule()
    log = []
    es = []

    def callback(i):
        def f():
            log.append((s.tick, i))
        return f
    for i in range(entries):
        e = entry(sx, i, -2, hi)
        es.append(e)
        f = callback(i)
        if decorator:
            g = s.add(interval=e[1], end=e[2], **({"start": e[0]} if sx.truth(sx.Not(sx.eq(e[0], 0))) else {}))(f)
        else:
            g = s.add(e[0], e[1], e[2], f)
        sx.check(g is f, "registering returns the callback")
    for k in calls(sx, total, 2 if entries == 1 else 1):
        s.run(k)
    decide(sx, s, es, [0] * entries, log, total)


@harness("C23", quick=[{"hi": 4, "total": 4, "how": h} for h in ("between", "by a callback")], thorough=[{"hi": 6, "total": 6, "how": h} for h in ("between", "by a callback")], path_s=30,
         reach=["a callback runs exactly at its ticks"])
def late(sx, hi, total, how):
    """callbacks registered while the schedule runs, and runs in several calls"""
    s = simse_helper.Schedule()
    log = []
    first, second = (sx.num("start", 0, 2), sx.num("interval", 1, 2), None), entry(sx, 1, 0, hi)
    since = [0, total + 1]

    def g():
        log.append((s.tick, 1))

    def f():
        log.append((s.tick, 0))
        if how == "by a callback" and since[1] > total:
            since[1] = s.tick
            s.add(second[0], second[1], second[2], g)
    s.add(first[0], first[1], first[2], f)
    a = calls(sx, total, 2)
    s.run(a[0])
    if how == "between":
        since[1] = a[0]
        s.add(second[0], second[1], second[2], g)
    s.run(a[1])
    decide(sx, s, [first, second], since, log, total)


@harness("C23", quick=[{"n": 3, "nodes": 3}], thorough=[{"n": 4, "nodes": 3}, {"n": 5, "nodes": 2}], path_s=30, reach=["degrees count neighbours", "weights add up", "nodes are the ends of edges"])
def graphs(sx, n, nodes):
    """a graph after any sequence of increments and queries"""
    g = simse_helper.Graph()
    names = ["a", 1, ("c", 2)][:nodes]
    edges = {}
    for _ in range(n):
        op = sx.choose("op", ["edge", "weighted", "query"])
        if op == "query":
            q, x = sx.choose("query", ["in", "out", "both", "nodes"]), sx.choose("of", names)
            if q == "nodes":
                g.nodes().add("not a node")
            else:
                {"in": g.in_degree, "out": g.out_degree, "both": g.degree}[q](x)
            continue
        a, b = sx.choose("from", names), sx.choose("to", names)
        w = sx.num("w", -5, 5) if op == "weighted" else 1
        if op == "weighted":
            g.incr_edge(a, b, w)
        else:
            g.incr_edge(a, b)
        edges[a, b] = edges.get((a, b), 0) + w
    sx.check(sorted(g.nodes(), key=str) == sorted(set(x for e in edges for x in e), key=str), "nodes are the ends of edges")
    for x in names:
        out = [e for e in edges if e[0] == x]
        inn = [e for e in edges if e[1] == x]
        sx.check(sx.And(sx.eq(g.out_degree(x), len(out)), sx.eq(g.in_degree(x), len(inn)), sx.eq(g.degree(x), len(out) + len(inn))), "degrees count neighbours")
    for (a, b), w in edges.items():
        sx.check(sx.And(sx.eq(g.outgoing[a][b], w), sx.eq(g.ingoing[b][a], w)), "weights add up")
    sx.check(sorted(g.nodes(), key=str) == sorted(set(x for e in edges for x in e), key=str), "nodes are the ends of edges")


class Random(object):
    """A random source with symbolic outcomes."""

    def __init__(self, sx):
        self.sx = sx

    def randint(self, a, b):
        return self.sx.num("r", a, b)

    def randrange(self, a, b=None):
        return self.sx.num("r", a, b - 1) if b is not None else self.sx.num("r", 0, a - 1)

    def choice(self, items):
        return items[self.sx.choose("r", list(range(len(items))))]

    def random(self):
        return self.sx.num("r", 0, 63, kind="float", den=64)


@harness("C23", cases=[{"n": n} for n in range(5)],
         reach=["nothing is chosen from nothing"] + ["possible: item %d of %d can be chosen" % (i, n) for n in range(5) for i in range(n)])
def choices(sx, n):
    """a random choice yields one of the items, and any of them"""
    items = [["item", i] for i in range(n)]
    saved = simse_helper.random
    simse_helper.random = Random(sx)
    try:
        got = simse_helper.iter_choice(iter(items))
    finally:
        simse_helper.random = saved
    if n == 0:
        sx.check(got is None, "nothing is chosen from nothing")
        return
    sx.check(any(got is i for i in items), "one of the items is chosen")
    sx.check(True, "possible: item %d of %d can be chosen" % (got[1], n))
