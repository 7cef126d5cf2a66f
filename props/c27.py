"""C27: output actions write the current values of their arguments."""

import re

import agentspeak.stdlib
import agentspeak.ext_stdlib

from symx.api import harness
from .prog import *

BOUNDS = {
    "quick": "calls of .print and .csv with up to 3 arguments out of 14 kinds (symbolic integers in [-2,2], strings with blanks and quotes, atoms, truth values, plain and linked lists, literals, annotations, expressions, variables bound and unbound) whose variables are bound by the context, by a subgoal or in a loop; two agents and two agents of one program writing in turns",
    "thorough": "as quick with .print of 4 arguments"}
OUTSIDE = ["colours", "quoting of commas in .csv", "files that cannot be written"]
ASSUMPTIONS = ["the text of a single term is right (C06)"]


COLOUR = re.compile("\x1b" + r"\[[0-9;]*m")


class Out(object):
    """Stand-ins for the terminal and for files."""

    def __init__(self):
        self.lines = []
        self.files = {}

    def print(self, *args, sep=" ", end="\n", **kw):
        text = ""
        for i, t in enumerate(args):
            t = COLOUR.sub("", t) if type(t) is str else t
            text = text + (sep if i else "") + t
        assert end == "\n"
        self.lines.append(text)

    def open(self, name, mode="r"):
        assert mode[0] in "wa"
        self.files[name] = f = File()
        return f

    def __enter__(self):
        agentspeak.stdlib.print = self.print
        agentspeak.ext_stdlib.open = self.open
        return self

    def __exit__(self, *exc):
        del agentspeak.stdlib.print
        del agentspeak.ext_stdlib.open


class File(object):
    def __init__(self):
        self.parts = []
        self.lines = []

    def write(self, t):
        if isinstance(t, str) and t == "\n":
            text = self.parts[0] if self.parts else ""
            for p in self.parts[1:]:
                text = text + p
            self.lines.append(text)
            self.parts = []
        else:
            self.parts.append(t)

    def flush(self):
        pass


def text_of(sx, line, names):
    """(agent's name, text) of a line written by .print (without its colours)."""
    for name in names:
        if sx.truth(sx.same(line[:len(name) + 1], name + " ")):
            return name, line[len(name) + 1:]
    sx.fail("under the name of the agent")


def value(sx, N, kind, x, y):
    """(argument as written, text expected)"""
    neg = sx.num("neg", -2, -1) if kind == "neg" else None
    return {
        "num": lambda: (N(x), N(x)), "neg": lambda: ("-" + N(-neg), "-" + N(-neg)), "sum": lambda: ("X + " + N(y), N(x + y)), "var": lambda: ("X", N(x)),
        "str": lambda: ('"a b"', "a b"), "quote": lambda: ('"\\"q\\""', '"q"'), "empty": lambda: ('""', ""), "atom": lambda: ("foo", "foo"),
        "bool": lambda: ("true", "true"), "list": lambda: ("[X, " + N(y) + ", s]", "[" + N(x) + ", " + N(y) + ", s]"),
        "cons": lambda: ("[X|[b]]", "[" + N(x) + "|[b]]"), "lit": lambda: ("f(X, g(" + N(y) + "), [])", "f(" + N(x) + ", g(" + N(y) + "), [])"),
        "ann": lambda: ("f(X)[a(" + N(y) + ")]", "f(" + N(x) + ")[a(" + N(y) + ")]"), "nested": lambda: ("f(X + 1)", "f(" + N(x + 1) + ")")}[kind]()


KINDS = ["num", "neg", "sum", "var", "str", "quote", "empty", "atom", "bool", "list", "cons", "lit", "ann", "nested"]
HOW = {"context": "!s.\n+!s : p(X) <- %s.\n", "step": "!s.\n+!s <- ?p(X); %s.\n", "subgoal": "!s.\n+!s <- !get(X); %s.\n+!get(Y) : p(Y).\n",
       "loop": "!s.\n+!s <- for (p(X)) { %s }.\n", "query": "!s.\n+!s : p(X) & %s.\n"}


@harness("C27", quick=[{"action": a_, "count": c} for a_ in (".print", ".csv") for c in (0, 1, 2)], thorough=[{"action": a_, "count": c} for a_ in (".print", ".csv") for c in (0, 1, 2, 3)],
         reach=["one line for every call", "the values at the time of the call"])
def values(sx, action, count):
    """one line with the values of the arguments, in order"""
    x, y = sx.num("x", 0, 2), sx.num("y", 0, 2)
    args = [value(sx, sx.numeral, sx.choose("kind", KINDS), x, y) for _ in range(count)]
    how = sx.choose("how", sorted(HOW)) if count < 2 else sx.choose("how", ["context", "loop"])
    call = action + "(" + ", ".join([t for t, _ in args]) + ")" if args else action
    src = "p(" + sx.numeral(x) + ").\n" + HOW[how].replace("%s", call)
    w = World(sx)
    with Out() as out:
        w.build(src, "writer")
        status = w.run()
    sx.check(status == "ok", "printing does not fail")
    want = (" " if action == ".print" else ",").join([t for _, t in args])
    if action == ".print":
        sx.check(len(out.lines) == 1, "one line for every call")
        name, text = text_of(sx, out.lines[0], ["writer"])
        sx.check(name == "writer", "under the name of the agent")
    else:
        sx.check(list(out.files) == ["writer.csv"], "into the agent's file")
        f = out.files["writer.csv"]
        sx.check(len(f.lines) == 1 and f.parts == [], "one line for every call")
        text = f.lines[0]
    sx.check(sx.same(text, want), "the values at the time of the call")


@harness("C27", cases=[{"action": ".print"}, {"action": ".csv"}], reach=["unbound variables keep apart"])
def unbound(sx, action):
    """an unbound variable is written the same way everywhere in the line, different ones differently; nothing is bound"""
    names = [sx.choose("v", ["X", "Y"]) for _ in range(3)]
    alias = sx.flag("alias")
    w = World(sx)
    with Out() as out:
        w.build("!s.\n+!s <- " + ("X = Y; " if alias else "") + action + "(" + ", ".join(names) + "); X = 1; Y = " + ("1" if alias else "2") + "; .rec(X, Y).\n", "writer")
        status = w.run()
    sx.check(status == "ok", "nothing is bound by printing")
    text = text_of(sx, out.lines[0], ["writer"])[1] if action == ".print" else out.files["writer.csv"].lines[0]
    words = text.split(" " if action == ".print" else ",")
    sx.check(len(words) == 3, "one word for every variable")
    for i in range(3):
        for j in range(i):
            sx.check((words[i] == words[j]) == (alias or names[i] == names[j]), "unbound variables keep apart")


@harness("C27", cases=[{"action": ".print"}, {"action": ".csv"}], reach=["every agent's lines in its own order"])
def agents(sx, action):
    """lines of several agents: each under its own name and in its own order"""
    x, y = sx.num("x", 0, 2), sx.num("y", 0, 2)
    N = sx.numeral
    many = sx.flag("many")
    w = World(sx)
    first = "!s.\n+!s <- for (.range(" + N(x) + ", I)) { " + action + "(I, " + N(y) + ") }; " + action + "(done).\n"
    with Out() as out:
        if many:
            w.env.build_agents(agentspeak.StringSource("first.asl", first), 2, w.actions)
        else:
            w.build(first, "first")
            w.build("!s.\n+!s <- " + action + "(" + N(y) + "); " + action + "(\"a\", b).\n", "other")
        sx.check(w.run() == "ok", "printing does not fail")
    sep = " " if action == ".print" else ","
    got = {}
    if action == ".print":
        for l in out.lines:
            name, text = text_of(sx, l, ["first1", "first", "other"])
            got.setdefault(name, []).append(text)
    else:
        got = dict((k[:-4], f.lines) for k, f in out.files.items())
    want = []
    i = 0
    while sx.truth(sx.lt(i, x)):
        want.append(str(i) + sep + N(y))
        i += 1
    want.append("done")
    second = "first1" if many else "other"
    want2 = want if many else [N(y), "a" + sep + "b"]
    sx.check(sorted(got) == ["first", second], "under the name of the agent")
    for name, ws in (("first", want), (second, want2)):
        sx.check(len(got[name]) == len(ws), "one line for every call")
        for p, q in zip(got[name], ws):
            sx.check(sx.same(p, q), "every agent's lines in its own order")
