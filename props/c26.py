"""C26: interactive sessions and the command line."""

import sys

import agentspeak.util

from symx.api import harness
from .prog import *
from .prog import lst as L

BOUNDS = {
    "quick": "sessions of 2 and 3 statements out of 13 kinds (bindings, tests, subgoals, goals for later, updates, constructs, failing and ill-typed steps with symbolic numbers in [0,2], rejected text), each typed on a line of its own, broken between any two words, or all on one line; 24 kinds of text that is no statement, between two statements; programs started from a file or from standard input that load or not and fail or not depending on symbolic values",
    "thorough": "as quick with 3 statements broken anywhere and 4 statements"}
OUTSIDE = ["comments over several lines (each line typed is read separately)", "what the terminal shows beyond the values of the variables", "input that ends without an interrupt", "statements typed while goals of earlier statements have failed one after the other"]
ASSUMPTIONS = ["single steps mean what they mean in plans (C12-C15, C24)"]

X, Y, Z = v("X"), v("Y"), v("Z")
PLANS = [("+!", a("g", v("A")), ("cmp", "<", v("A"), n(2)), [("rec", a("g"), v("A"))]),
         ("+!", a("get", v("A")), ("true",), [("do", ("lit", "p", v("A")))]),
         ("+", a("q", v("A")), ("true",), [("rec", a("q"), v("A"))])]
FACTS = [a("p", n(5))]


def bind(sx, k, t):
    return [("do", ("eq", X, n(k)))], ["X", "=", t]


def rec(sx, k, t):
    return [("rec", X, Y, Z)], [".rec(X,", "Y,", "Z)"]


def test(sx, k, t):
    return [("test", a("p", Y)), ("rec", Y)], ["?p(Y)", ";", ".rec(Y)"]


def sub(sx, k, t):
    return [("achieve", a("get", Z))], ["!get(", "Z", ")"]


def goal(sx, k, t):
    return [("achieve", a("g", n(k)))], ["!g(", t, ")"]


def later(sx, k, t):
    return [("later", a("g", n(k))), ("rec", n(0))], ["!!", "g(", t, ")", ";", ".rec(0)"]


def add(sx, k, t):
    return [("add", a("q", n(k)))], ["+q(", t, ")"]


def drop(sx, k, t):
    return [("remove", a("q", n(k))), ("rec", n(9))], ["-", "q(", t, ")", ";", ".rec(9)"]


def if_(sx, k, t):
    return ([("if", ("cmp", "<", n(k), n(1)), [("rec", n(1))], [("rec", n(2))]), ("rec", n(3))],
            ["if", "(", t, "<", "1)", "{", ".rec(1)", "}", "else", "{", ".rec(2)", "}", ";", ".rec(3)"])


def for_(sx, k, t):
    return [("for", ("act", ".range", n(k), v("I")), [("rec", v("I"))])], ["for", "(.range(", t, ",", "I))", "{", ".rec(I)", ";", "}"]


def fail(sx, k, t):
    return [("rec", n(4)), ("do", ("cmp", "<", n(k), n(1))), ("rec", n(5))], [".rec(4)", ";", t, "<", "1", ";", ".rec(5)"]


def known(sx, k, t):
    return [("do", ("lit", "q", n(k))), ("rec", n(6))], ["q(", t, ")", ";", ".rec(6)"]


def illtyped(sx, k, t):
    return [("do", ("eq", Z, ("op", "+", X, n(k))))], ["Z", "=", "X", "+", t]


KINDS = [bind, rec, test, sub, goal, later, add, drop, if_, for_, fail, known, illtyped]


class Session(object):
    """Feeds lines to the real prompt; what happened until each prompt is noted."""

    def __init__(self, sx, src, lines):
        self.w = World(sx)
        self.agent = self.w.build(src)
        self.lines = list(lines)
        self.marks = []
        self.shown = []

    def prompt(self, text):
        self.marks.append((text, len(self.w.out), len(self.cap.errors()), len(self.shown)))
        if not self.lines:
            raise KeyboardInterrupt()
        return self.lines.pop(0)

    def show(self, *args, **kw):
        if kw.get("file") is None:
            self.shown.append(args[0] if args else "")

    def run(self):
        rt = agentspeak.runtime
        saved = agentspeak.util.prompt
        agentspeak.util.prompt = self.prompt
        rt.print = self.show
        try:
            with Capture() as self.cap:
                try:
                    rt.repl(self.agent, self.w.env, self.w.actions)
                except SystemExit as e:
                    return e.code
        finally:
            agentspeak.util.prompt = saved
            del rt.print


class RefSession(object):
    def __init__(self, sx):
        self.ref = RefAgent(sx, [], [], PLANS)
        for f in FACTS:
            self.ref.add(f)
        self.s = {}

    def statement(self, body):
        """Runs what is left over and the statement; True if everything went well."""
        ref = self.ref
        todo, ref.queue = ref.queue + [None], []
        try:
            while todo:
                item = todo.pop(0)
                if item is None:
                    for st in body:
                        self.s = ref.step(st, self.s)
                else:
                    ref.body(*item)
                todo += ref.queue
                ref.queue = []
            return True
        except (RefFail, RefError):
            # what was posted stays for later
            todo += ref.queue
            self.ref.sx.assume(None not in todo)
            ref.queue = todo
            return False




def source(sx):
    return show_program(sx, FACTS, [], [], PLANS)


def compare(sx, session, ref, rows):
    sx.check(rows_equal(sx, [row_norm(r) for r in session.w.recs()], [flat_row(r) for r in ref.ref.out], True),
             "every statement has run once, in order")


@harness("C26", quick=[{"count": 2, "layout": l} for l in ("lines", "broken", "one line")] + [{"count": 3, "layout": "lines"}],
         thorough=[{"count": 3, "layout": l} for l in ("lines", "broken", "one line")], path_s=30,
         reach=["every statement has run once, in order", "failures are reported", "the values shown"])
def statements(sx, count, layout):
    """statements run once each as soon as they are complete, in one scope, however they are
    split into lines; a failing one is reported and the session goes on"""
    ref = RefSession(sx)
    typed = []
    for i in range(count):
        k = sx.num("k", 0, 2)
        typed.append(sx.choose("kind", KINDS)(sx, k, sx.numeral(k)))
    lines, ends = [], []       # ends[j]: the statements that line j completes
    broken = sx.choose("which", list(range(count))) if layout == "broken" else None
    for i, (body, words) in enumerate(typed):
        words = words + ["."]
        if i == broken:
            at = sx.choose("at", list(range(1, len(words))))
            lines += [" ".join(words[:at]), " ".join(words[at:])]
            ends += [[], [i]]
        elif layout == "one line" and i:
            lines[-1] = lines[-1] + " " + " ".join(words)
            ends[-1].append(i)
        else:
            lines.append(" ".join(words))
            ends.append([i])
    s = Session(sx, source(sx), lines)
    code = s.run()
    sx.check(code == 0, "an interrupt ends the session")
    sx.check(len(s.marks) == len(lines) + 1, "one prompt for every line")
    for j, done in enumerate(ends):
        failed = False
        for i in done:
            if not ref.statement(typed[i][0]):
                failed = True
                break
        sx.check((s.marks[j + 1][2] > s.marks[j][2]) == failed, "failures are reported")
        sx.check(s.marks[j + 1][1] == len(ref.ref.out), "as soon as they are complete")
        sx.check(("..." in s.marks[j + 1][0]) == (not done), "the prompt tells whether something is pending")
        if done and not failed:
            shown = [t for t in s.shown[s.marks[j][3]:s.marks[j + 1][3]]]
            want = [(x, ref.ref.walk(ref.s, v(x))) for x in ("X", "Y", "Z")]
            for x, t in want:
                if t[0] == "n":
                    text = x + " = " + sx.numeral(t[1])
                    sx.check(sx.Or(*[sx.same(text, u) for u in shown]), "the values shown")
                else:
                    sx.check(not any(u.startswith(x + " = ") for u in [str_of(y) for y in shown]), "the values shown")
    compare(sx, s, ref, None)


def str_of(y):
    return y if isinstance(y, str) else ""


BAD = ["(-1).", "[1].", "5.", "p(5) q.", "+(1 + 2).", "-X + 1.", ".", "else.", ") .", "(1 + 2).", '"a".', "+1.", "[X|Y].", "not 1.", "(not 1).", "true & 3.",
       "if (1) { .rec(0) }.", "while ([]) { .rec(0) }.", "!5.", "?[1].", "!!(X).", "-+(1).", "1 = .", "X = 1 / 0 & \"a\" < 1."]


@harness("C26", cases=[{"n_bad": k} for k in (1, 2)], reach=["the rejected text is reported", "the session goes on"])
def rejected(sx, n_bad):
    """text that is no statement is reported and changes nothing; the session goes on"""
    k = sx.num("k", 0, 2)
    t = sx.numeral(k)
    bad = [sx.choose("bad", BAD) for _ in range(n_bad)]
    same_line = sx.flag("same line")
    lines = ["X = " + t + "."] + ([" ".join(["+q(" + t + ") . " + bad[0]] + bad[1:])] if same_line else ["+q(" + t + ")."] + bad)
    lines += ["?q(Y); .rec(X, Y)."]
    s = Session(sx, source(sx), lines)
    code = s.run()
    sx.check(code == 0, "the session goes on")
    first = 1 if same_line else 2
    for j in range(first, len(lines) - 1):
        sx.check(s.marks[j + 1][2] > s.marks[j][2], "the rejected text is reported")
        sx.check(">>>" in s.marks[j + 1][0], "pending text is dropped")
    sx.check(s.marks[-1][2] == s.marks[-2][2], "the session goes on")
    recs = s.w.recs()
    sx.check(len(recs) == 2, "the session goes on")
    if len(recs) == 2:
        sx.check(sx.And(sx.eq(recs[1][0], k), sx.eq(recs[1][1], k)), "bindings and beliefs are kept")


class Source(object):
    def __init__(self, name, text):
        self.name, self.text = name, text

    def __iter__(self):
        return iter(agentspeak.StringSource(self.name, self.text))

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def isatty(self):
        return False


MAINS = {"+!s : p(X) <- .rec(1); X < 1; .rec(2).": lambda sx, k: sx.lt(k, 1), "+!s <- .rec(1); ?p(1); .rec(2).": lambda sx, k: sx.eq(k, 1),
         "+!s : p(X) <- .rec(1); !t(X); .rec(2).\n+!t(0).": lambda sx, k: sx.eq(k, 0), "+!s <- .rec(1); !!t; .rec(2).\n+!t : p(X) <- X = 2.": lambda sx, k: sx.eq(k, 2),
         "+!s : p(X) <- .rec(1); .nth(X, [1], Y); .rec(2).": lambda sx, k: sx.eq(k, 0), "+!s <- .rec(1); .wait(X).": lambda sx, k: sx.eq(k, 7),
         "+!s : p(X) <- .rec(1); .wait(X); .rec(2).": lambda sx, k: sx.eq(k, k)}
UNLOADABLE = ["+!s <- .rec(1)", "p(X + 1). +!s <- .rec(1).", "+!s <- .rec(1). $", "+!t.", "+!s <- 5.", "{ include(\"no such file.asl\") } +!s.", "}"]


@harness("C26", cases=[{"how": h} for h in ("file", "stdin")], reach=["status 1 exactly when something failed", "the program runs"])
def command_line(sx, how):
    """running a program from the command line ends with status 1 exactly when loading or running it fails"""
    k = sx.num("k", 0, 2)
    body = sx.choose("program", sorted(MAINS) + UNLOADABLE)
    src = "p(" + sx.numeral(k) + ").\n!s.\n" + body + "\n"
    w = World(sx)
    import agentspeak.ext_stdlib as ext
    rt = agentspeak.runtime
    saved = ext.actions, sys.argv, sys.stdin
    ext.actions = w.actions
    sys.argv = ["agentspeak"] + (["prog.asl"] if how == "file" else [])
    sys.stdin = Source("<stdin>", src)
    rt.open = lambda name, *args: Source(name, src)
    rt.print = lambda *args, **kw: None
    clock = [0.0]

    class Clock(object):
        def time(self):
            return clock[0]

        def sleep(self, d):
            clock[0] += d + 1
    saved_time, rt.time = rt.time, Clock()
    try:
        with Capture() as cap:
            try:
                rt.main(post_repl=False)
                code = 0
            except SystemExit as e:
                code = e.code
    finally:
        ext.actions, sys.argv, sys.stdin = saved
        rt.time = saved_time
        del rt.open
        del rt.print
    if body in UNLOADABLE:
        sx.check(code == 1 and len(cap.errors()) > 0, "status 1 exactly when something failed")
        sx.check(w.recs() == [], "a program that cannot be loaded does not run")
        return
    sx.check(sx.Iff(code == 0, MAINS[body](sx, k)), "status 1 exactly when something failed")
    sx.check((len(cap.errors()) > 0) == (code == 1), "the failure is reported")
    sx.check([r[0] for r in w.recs()][:1] == [1], "the program runs")
