"""Running small programs on the real interpreter, and a reference query solver."""

import logging

import agentspeak
import agentspeak.runtime
import agentspeak.stdlib
import agentspeak.ext_stdlib
from agentspeak import Literal, Var, Wildcard, AslError, AggregatedError


class World(object):
    """An environment whose agents can call .rec(...), which records its arguments."""

    def __init__(self, sx, base=None):
        self.sx = sx
        self.env = agentspeak.runtime.Environment()
        self.out = []
        self.actions = agentspeak.Actions(base or agentspeak.ext_stdlib.actions)
        out = self.out

        @self.actions.add(".rec")
        def _rec(agent, term, intention):
            memo = {}
            out.append((agent.name, tuple(agentspeak.freeze(t, intention.scope, memo)
                                          for t in term.args)))
            yield

    def build(self, src, name="ag", cls=None):
        kw = {"agent_cls": cls} if cls else {}
        return self.env.build_agent(agentspeak.StringSource(name + ".asl", src), self.actions, **kw)

    def run(self):
        """'ok', or 'error' when the run ended with the library's error."""
        try:
            self.env.run()
        except (AggregatedError, AslError):
            return "error"
        return "ok"

    def recs(self, agent=None):
        return [a for n, a in self.out if agent is None or n == agent]


class Capture(logging.Handler):
    """Collects the records the library logs (level name, location)."""

    NAMES = ("agentspeak.runtime", "agentspeak.parser", "agentspeak.lexer", "agentspeak.stdlib")

    def __init__(self):
        super(Capture, self).__init__()
        self.records = []

    def emit(self, record):
        self.records.append((record.levelname, getattr(record, "loc", None)))

    def __enter__(self):
        self.saved = [(logging.getLogger(x), logging.getLogger(x).handlers, logging.getLogger(x).propagate)
                      for x in self.NAMES]
        for lg, _, _ in self.saved:
            lg.handlers, lg.propagate = [self], False
        self.old_disable = logging.root.manager.disable
        logging.disable(logging.NOTSET)
        return self

    def __exit__(self, *exc):
        logging.disable(self.old_disable)
        for lg, hs, prop in self.saved:
            lg.handlers, lg.propagate = hs, prop

    def errors(self):
        return [loc for level, loc in self.records if level in ("ERROR", "CRITICAL")]


def run_source(sx, src, name="ag"):
    """(status, world): status is ok / load-error / error."""
    w = World(sx)
    try:
        w.build(src, name)
    except (AggregatedError, AslError):
        return "load-error", w
    return w.run(), w


# -- reference terms ----------------------------------------------------------------
# ("n", number) ("b", bool) ("s", str) ("f", functor, args...) ("l", items...)
# ("c", head, tail) ("v", name) ("w",)

def n(x):
    return ("n", x)


def v(x):
    return ("v", x)


def a(f, *args):
    return ("f", f) + args


def lst(*xs):
    return ("l",) + xs


W = ("w",)


def show(sx, t):
    k = t[0]
    if k == "n":
        return sx.numeral(t[1])
    if k == "b":
        return "true" if t[1] else "false"
    if k == "s":
        return '"%s"' % t[1]
    if k == "v":
        return t[1]
    if k == "w":
        return "_"
    if k == "f":
        return t[1] + ("(" + ", ".join([show(sx, x) for x in t[2:]]) + ")" if len(t) > 2 else "")
    if k == "l":
        return "[" + ", ".join([show(sx, x) for x in t[1:]]) + "]"
    if k == "c":
        return "[" + show(sx, t[1]) + "|" + show(sx, t[2]) + "]"
    if k == "op":
        return "(" + show(sx, t[2]) + " " + t[1] + " " + show(sx, t[3]) + ")"
    raise AssertionError(t)


def show_q(sx, q):
    k = q[0]
    if k == "lit":
        return show(sx, ("f",) + q[1:])
    if k == "and":
        return "(" + show_q(sx, q[1]) + " & " + show_q(sx, q[2]) + ")"
    if k == "or":
        return "(" + show_q(sx, q[1]) + " | " + show_q(sx, q[2]) + ")"
    if k == "not":
        return "not (" + show_q(sx, q[1]) + ")"
    if k == "eq":
        return show(sx, q[1]) + " = " + show(sx, q[2])
    if k == "cmp":
        return show(sx, q[2]) + " " + q[1] + " " + show(sx, q[3])
    if k in ("true", "false"):
        return k
    if k == "act":
        return q[1] + "(" + ", ".join([show_q(sx, x[1]) if x[0] == "q" else show(sx, x)
                                      for x in q[2:]]) + ")"
    raise AssertionError(q)


class RefError(Exception):
    """The program is ill-typed here: the interpreter must report an error."""


class Ref(object):
    """Reference semantics; forks the path on leaf comparisons."""

    def __init__(self, sx, beliefs=(), rules=(), limit=200):
        self.sx = sx
        self.beliefs = []
        for b in beliefs:
            self.add(b)
        self.rules = list(rules)
        self.fresh = 0
        self.steps = 0
        self.limit = limit

    def add(self, b):
        if not any(self.equal(b, o) for o in self.beliefs):
            self.beliefs.append(b)

    def equal(self, x, y):
        return self.unify({}, x, y) is not None

    def walk(self, s, t):
        while t[0] == "v" and t[1] in s:
            t = s[t[1]]
        return t

    def cons(self, t):
        """(head, tail) of a non-empty list, None for [], or False for a non-list."""
        if t[0] == "l":
            return (t[1], ("l",) + t[2:]) if len(t) > 1 else None
        if t[0] == "c":
            return (t[1], t[2])
        return False

    def occurs(self, s, name, t):
        t = self.walk(s, t)
        if t[0] == "v":
            return t[1] == name
        return any(self.occurs(s, name, x) for x in t[1:] if isinstance(x, tuple))

    def value(self, s, t):
        """Evaluates arithmetic."""
        t = self.walk(s, t)
        if t[0] == "op":
            x, y = self.value(s, t[2]), self.value(s, t[3])
            if x[0] != "n" or y[0] != "n":
                raise RefError()
            x, y = x[1], y[1]
            return ("n", {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y}[t[1]]())
        return t

    def unify(self, s, x, y):
        x, y = self.value(s, x), self.value(s, y)
        if x[0] == "w" or y[0] == "w":
            return s
        if x[0] == "v" and y[0] == "v" and x[1] == y[1]:
            return s
        if x[0] == "v" or y[0] == "v":
            if x[0] != "v":
                x, y = y, x
            self.sx.assume(not self.occurs(s, x[1], y))
            s = dict(s)
            s[x[1]] = y
            return s
        cx, cy = self.cons(x), self.cons(y)
        if cx is not False or cy is not False:
            if cx is False or cy is False:
                return None
            if cx is None or cy is None:
                return s if cx is cy else None
            s = self.unify(s, cx[0], cy[0])
            return None if s is None else self.unify(s, cx[1], cy[1])
        if x[0] != y[0]:
            return None
        if x[0] == "n":
            return s if self.sx.truth(self.sx.eq(x[1], y[1])) else None
        if x[0] in ("b", "s"):
            return s if x[1] == y[1] else None
        if x[1] != y[1] or len(x) != len(y):
            return None
        for p, q in zip(x[2:], y[2:]):
            s = self.unify(s, p, q)
            if s is None:
                return None
        return s

    def resolve(self, s, t, names=None):
        """Fully substituted."""
        t = self.value(s, t)
        if t[0] in ("l", "f"):
            k = 1 if t[0] == "l" else 2
            return t[:k] + tuple(self.resolve(s, x) for x in t[k:])
        if t[0] == "c":
            h, tl = self.resolve(s, t[1]), self.resolve(s, t[2])
            return ("l", h) + tl[1:] if tl[0] == "l" else ("c", h, tl)
        return t

    def rename(self, t, m):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "v" and len(t) == 2:
            if t[1] not in m:
                self.fresh += 1
                m[t[1]] = "%s'%d" % (t[1], self.fresh)
            return ("v", m[t[1]])
        return tuple(self.rename(x, m) for x in t)

    def ground(self, s, t):
        t = self.walk(s, t)
        if t[0] in ("v", "w"):
            raise RefError()
        if t[0] in ("l", "f", "c", "op"):
            for x in t[1:]:
                if isinstance(x, tuple):
                    self.ground(s, x)
        return t

    def solve(self, q, s):
        self.steps += 1
        if self.steps > self.limit:
            self.sx.assume(False)
        k = q[0]
        if k == "true":
            yield s
        elif k == "false":
            return
        elif k == "and":
            for s1 in self.solve(q[1], s):
                for s2 in self.solve(q[2], s1):
                    yield s2
        elif k == "or":
            for s1 in self.solve(q[1], s):
                yield s1
            for s1 in self.solve(q[2], s):
                yield s1
        elif k == "not":
            for _ in self.solve(q[1], s):
                return
            yield s
        elif k == "eq":
            s1 = self.unify(s, q[1], q[2])
            if s1 is not None:
                yield s1
        elif k == "cmp":
            x, y = self.value(s, q[2]), self.value(s, q[3])
            self.ground(s, x)
            self.ground(s, y)
            if self.compare(q[1], self.resolve(s, x), self.resolve(s, y)):
                yield s
        elif k == "lit":
            goal = ("f",) + q[1:]
            for b in list(self.beliefs):
                s1 = self.unify(s, goal, b)
                if s1 is not None:
                    yield s1
            for head, body in self.rules:
                m = {}
                s1 = self.unify(s, goal, self.rename(head, m))
                if s1 is not None:
                    for s2 in self.solve(self.rename(body, m), s1):
                        yield s2
        elif k == "act":
            for s1 in self.act(q[1], q[2:], s):
                yield s1
        else:
            raise AssertionError(q)

    def compare(self, op, x, y):
        sx = self.sx
        if op in ("==", "\\=="):
            e = self.equal(x, y)
            return e if op == "==" else not e
        if x[0] == "n" and y[0] == "n":
            f = {"<": sx.lt(x[1], y[1]), "<=": sx.le(x[1], y[1]),
                 ">": sx.lt(y[1], x[1]), ">=": sx.le(y[1], x[1])}[op]
            return sx.truth(f)
        if x[0] == "s" and y[0] == "s":
            return {"<": x[1] < y[1], "<=": x[1] <= y[1], ">": x[1] > y[1], ">=": x[1] >= y[1]}[op]
        raise RefError()

    def items(self, t):
        out = []
        while True:
            c = self.cons(t)
            if c is None:
                return out
            if c is False:
                raise RefError()
            out.append(c[0])
            t = c[1]

    def act(self, name, args, s):
        sx = self.sx

        def result(t):
            s1 = self.unify(s, args[-1], t)
            return [s1] if s1 is not None else []
        if name == ".member":
            for m in self.items(self.resolve(s, args[1])):
                s1 = self.unify(s, args[0], m)
                if s1 is not None:
                    yield s1
        elif name == ".range":
            x = self.value(s, args[0])
            if x[0] != "n":
                raise RefError()
            i = 0
            while sx.truth(sx.lt(i, x[1])):
                for s1 in result(("n", i)):
                    yield s1
                i += 1
        elif name == ".length":
            for s1 in result(("n", len(self.items(self.resolve(s, args[0]))))):
                yield s1
        elif name == ".concat":
            t = []
            for x in args[:-1]:
                t += self.items(self.resolve(s, x))
            for s1 in result(("l",) + tuple(t)):
                yield s1
        elif name == ".findall":
            got = tuple(self.resolve(s1, args[0]) for s1 in self.solve(args[1][1], s))
            for s1 in result(("l",) + got):
                yield s1
        elif name == ".count":
            c = sum(1 for _ in self.solve(args[0][1], s))
            for s1 in result(("n", c)):
                yield s1
        elif name == ".substring":
            x, y = args[0][1], args[1][1]
            for i in range(len(y) - len(x) + 1):
                if y[i:i + len(x)] == x:
                    for s1 in result(("n", i)):
                        yield s1
        elif name == ".sort":
            xs = [t for t in self.items(self.resolve(s, args[0]))]
            out = []
            for x in xs:
                i = 0
                while i < len(out) and not self.compare("<", x, out[i]):
                    i += 1
                out.insert(i, x)
            for s1 in result(("l",) + tuple(out)):
                yield s1
        else:
            raise AssertionError(name)


def ref_norm(t, names=None):
    """The shape api.norm gives to the corresponding library term (lists flattened)."""
    if names is None:
        names = {}
    k = t[0]
    if k == "n":
        return ("num", "", t[1])
    if k == "b":
        return ("bool", t[1])
    if k == "s":
        return ("str", t[1])
    if k == "v":
        return ("var", names.setdefault(t[1], len(names)))
    if k == "w":
        return ("wild",)
    if k == "f":
        return ("lit", ("str", t[1]), tuple(ref_norm(x, names) for x in t[2:]), ("set", ()))
    if k == "l":
        return ("list", tuple(ref_norm(x, names) for x in t[1:]))
    if k == "c":
        return ("ll", ref_norm(t[1], names), ref_norm(t[2], names))
    raise AssertionError(t)


def row_norm(row):
    from symx.api import norm, flat_ll
    names = {}
    return ("list", tuple(flat_ll(norm(x, names)) for x in row))


def ref_row(ref, s, terms):
    names = {}
    return ("list", tuple(ref_norm(ref.resolve(s, t), names) for t in terms))


def rows_equal(sx, xs, ys, ordered):
    """Formula: the two lists of normalised rows agree (as sequences or multisets)."""
    if len(xs) != len(ys):
        return False
    if ordered:
        return sx.And(*[sx.same_n(p, q) for p, q in zip(xs, ys)])
    cs = []
    for x in xs:
        cs.append(sx.count_eq([sx.same_n(x, z) for z in xs], [sx.same_n(x, z) for z in ys]))
    return sx.And(*cs)


# -- reference agent ------------------------------------------------------------------
# step = ("do", query) ("rec", terms...) ("achieve", goal) ("later", goal) ("test", goal)
#        ("add", fact) ("remove", pattern) ("if", q, body, else_body or None)
#        ("while", q, body) ("for", q, body); goal/fact/pattern = ("f", functor, args...)
# plan = (trigger string, head, context query, body)

class RefFail(Exception):
    """The current plan fails here."""


class RefAgent(Ref):
    """Sequential reference semantics of one agent's intentions."""

    def __init__(self, sx, beliefs=(), rules=(), plans=(), limit=400):
        super(RefAgent, self).__init__(sx, [], rules, limit)
        self.initial = list(beliefs)
        self.plans = list(plans)
        self.out = []
        self.queue = []

    def run(self, goals):
        """Status after running all intentions; the records are in self.out."""
        try:
            for b in self.initial:
                self.add(b)
                got = self.select("+", b, {})
                if got is not None:
                    self.queue.append(got)
            for g in goals:
                self.queue.append(self.select("+!", g, {}))
            while self.queue:
                body, s = self.queue.pop(0)
                self.body(body, s)
        except (RefFail, RefError):
            return "error"
        return "ok"

    def run_all(self, goals):
        """Like run, but a failing intention is dropped and the others go on; returns
        the number of failures."""
        failures = 0
        for g in goals:
            self.queue.append(self.select("+!", g, {}))
        while self.queue:
            body, s = self.queue.pop(0)
            try:
                self.body(body, s)
            except (RefFail, RefError):
                failures += 1
        return failures

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            self.sx.assume(False)

    def select(self, trigger, goal, s):
        for trig, head, ctx, body in self.plans:
            if trig != trigger:
                continue
            m = {}
            s1 = self.unify(s, self.rename(head, m), goal)
            if s1 is None:
                continue
            for s2 in self.solve(self.rename(ctx, m), s1):
                return self.rename_body(body, m), s2
        if trigger == "+!":
            raise RefFail()
        return None

    def rename_body(self, body, m):
        return None if body is None else [self.rename_step(st, m) for st in body]

    def rename_step(self, st, m):
        if st[0] in ("if", "while", "for"):
            return (st[0], self.rename(st[1], m)) + tuple(self.rename_body(b, m) for b in st[2:])
        return (st[0],) + tuple(self.rename(x, m) for x in st[1:])

    def body(self, body, s):
        for st in body:
            s = self.step(st, s)
        return s

    def call(self, trigger, goal, s):
        got = self.select(trigger, goal, s)
        return s if got is None else self.body(*got)

    def step(self, st, s):
        self.tick()
        k = st[0]
        if k == "do":
            for s1 in self.solve(st[1], s):
                return s1
            raise RefFail()
        if k == "rec":
            self.out.append(ref_row(self, s, st[1:]))
            return s
        if k == "achieve":
            return self.call("+!", self.freeze(st[1], s), s)
        if k == "later":
            self.queue.append(self.select("+!", self.rename(self.resolve(s, st[1]), {}), {}))
            return s
        if k == "test":
            goal = self.freeze(st[1], s)
            got = self.select("+?", goal, s)
            if got is not None:
                return self.body(*got)
            for s1 in self.solve(("lit",) + goal[1:], s):
                return s1
            raise RefFail()
        if k == "add":
            f = self.ground(s, st[1])
            f = self.resolve(s, f)
            self.add(f)
            return self.call("+", f, s)
        if k == "remove":
            for i, b in enumerate(self.beliefs):
                s1 = self.unify(s, st[1], b)
                if s1 is not None:
                    del self.beliefs[i]
                    return self.call("-", self.resolve(s1, st[1]), s1)
            return s
        if k == "replace":
            pat = st[1][:2] + tuple(W if x[0] in ("v", "op") else x for x in st[1][2:])
            for i, b in enumerate(self.beliefs):
                if self.unify({}, pat, b) is not None:
                    del self.beliefs[i]
                    self.call("-", pat, {})
                    break
            return self.step(("add", st[1]), s)
        if k == "if":
            for s1 in self.solve(st[1], s):
                return self.body(st[2], s1)
            return self.body(st[3], s) if st[3] is not None else s
        if k == "while":
            while True:
                self.tick()
                for s1 in self.solve(st[1], s):
                    self.body(st[2], s1)
                    break
                else:
                    return s
        if k == "for":
            for s1 in self.solve(st[1], s):
                self.body(st[2], s1)
            return s
        raise AssertionError(st)

    def freeze(self, t, s):
        """The goal with expressions evaluated."""
        return self.resolve(s, t)


def show_step(sx, st):
    k = st[0]
    if k == "do":
        return show_q(sx, st[1])
    if k == "rec":
        return ".rec(" + ", ".join(show(sx, x) for x in st[1:]) + ")"
    sign = {"achieve": "!", "later": "!!", "test": "?", "add": "+", "remove": "-", "replace": "-+"}
    if k in sign:
        return sign[k] + show(sx, st[1])
    if k == "if":
        s = "if (" + show_q(sx, st[1]) + ") { " + show_body(sx, st[2]) + " }"
        return s + (" else { " + show_body(sx, st[3]) + " }" if st[3] is not None else "")
    return k + " (" + show_q(sx, st[1]) + ") { " + show_body(sx, st[2]) + " }"


def show_body(sx, body):
    return "; ".join(show_step(sx, st) for st in body)


def show_plan(sx, p):
    trig, head, ctx, body = p
    return trig + show(sx, head) + (" : " + show_q(sx, ctx) if ctx != ("true",) else "") + \
        (" <- " + show_body(sx, body) if body else "") + "."


def show_program(sx, beliefs, rules, goals, plans):
    return "\n".join([show(sx, b) + "." for b in beliefs] +
                     [show(sx, h) + " :- " + show_q(sx, q) + "." for h, q in rules] +
                     ["!" + show(sx, g) + "." for g in goals] +
                     [show_plan(sx, p) for p in plans]) + "\n"


def against_reference(sx, beliefs, rules, goals, plans, label="same records in the same order"):
    """Runs the program on the interpreter and on the reference; compares status and records."""
    src = show_program(sx, beliefs, rules, goals, plans)
    ref = RefAgent(sx, beliefs, rules, plans)
    want = ref.run(goals)
    status, w = run_source(sx, src)
    sx.observe("status", status)
    sx.check(status == want or (want == "error" and status == "load-error"), "ends the way the reference does")
    got = [row_norm(r) for r in w.recs()]
    sx.check(rows_equal(sx, got, [flat_row(r) for r in ref.out], True), label)
    return w, ref


def flat_row(r):
    from symx.api import flat_ll
    return ("list", tuple(flat_ll(x) for x in r[1]))
