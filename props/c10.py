"""C10: loading any source text."""

from symx.api import harness
from .c07 import RefLexer, split_lines
from .prog import *

BOUNDS = {
    "quick": "texts of 2-3 symbolic characters out of 5 alphabets in 14 places of a program (and alone); 14 programs covering every construct with one token replaced, inserted, removed, repeated or cut off at a symbolic position, out of 52 tokens; all sequences of 3 of 21 tokens",
    "thorough": "3-4 characters; two adjacent tokens replaced; all sequences of 4 tokens"}
OUTSIDE = ["nesting deeper than the Python stack", "initial plans that run forever are not run here (loading only)"]
ASSUMPTIONS = []


def outcome(sx, src, name="ag"):
    """Loads; checks that there is an agent or a reported, located error."""
    w = World(sx)
    with Capture() as cap:
        try:
            ag = w.build(src, name)
        except AggregatedError:
            ag = None
            sx.check(len(cap.errors()) > 0, "a failure is reported")
        except AslError:
            # the library's error for programs that can be read, but not be set up
            ag = None
    errs = cap.errors()
    if ag is None:
        sx.check(not w.env.agents, "no agent after an error")
    else:
        sx.check(len(errs) == 0, "no agent after an error")
        sx.check(list(w.env.agents.values()) == [ag], "an agent without an error")
    sx.check(all(l is not None for l in errs), "errors are located")
    sx.observe("loaded", ag is not None)
    return ag


PLACES = {
    "alone": "%", "belief": "p(%).", "functor": "p%.", "annotation": "p[%].", "rule": "r :- %.", "context": "+!s : % <- a.",
    "step": "!s.\n+!s <- %.", "condition": "+!s <- if (%) { a }.", "goal": "!%.", "trigger": "%s(X) <- a.", "string": 'p("%").',
    "directive": "{ %}", "label": "@% +!s.", "list": "p([%]).",
}
ALPHABETS = {"words": "aX_1. ", "signs": "+-!?*@~.", "logic": "&|=<>(not)", "brackets": "()[]{},;:", "quotes": '"\\x/*#\n'}


@harness("C10", quick=[{"place": p, "n": 2, "alphabet": a_} for p in sorted(PLACES) for a_ in sorted(ALPHABETS)] + [{"place": "alone", "n": 3, "alphabet": a_} for a_ in sorted(ALPHABETS)],
         thorough=[{"place": p, "n": 3, "alphabet": a_} for p in sorted(PLACES) for a_ in sorted(ALPHABETS)] + [{"place": "alone", "n": 4, "alphabet": a_} for a_ in sorted(ALPHABETS)],
         path_s=20, reach=["a failure is reported", "an agent without an error", "no agent after an error"])
def characters(sx, place, n, alphabet):
    """symbolic characters alone and in every place of a program"""
    pieces = PLACES[place].split("%")
    outcome(sx, pieces[0] + sx.text("t", n, ALPHABETS[alphabet]) + pieces[1])


@harness("C10", cases=[{"place": p} for p in sorted(PLACES)], path_s=20, reach=["a failure is reported"])
def anything(sx, place):
    """one or two characters of any kind"""
    pieces = PLACES[place].split("%")
    outcome(sx, pieces[0] + sx.text("t", 1, maxcp=0x10ffff) + sx.choose("after", ["", "a", '"']) + pieces[1])


VOCAB = ["a", "X", "_", "~b", ".print", ".nosuch", "1", "2.5e-3", '"s"', '"\\x"', "true", "false", "p(X)", "q(1)[a]", "[]", "[H|T]",
         "+", "-", "*", "/", "**", "div", "mod", "not", "&", "|", "<", "<=", "==", "\\==", "=", "=..",
         "(", ")", "[", "]", "{", "}", ",", ";", ":", ".", "<-", ":-", "!", "!!", "?", "-+", "@", "if", "else", "while", "for", "|&|",
         "include", "begin", "end", "/*", "//", '"', "$", "1/0", "(1 < 2)"]

BASES = {
    "beliefs": ["p", "(", "1", ",", '"x"', ",", "[", "a", "|", "[", "2", "]", "]", ")", "[", "b", "(", "true", ")", "]", "."],
    "rule": ["r", "(", "X", ",", "f", "(", "Y", ")", ")", ":-", "p", "(", "X", ")", "&", "not", "q", "|", "X", "<", "1", "+", "Y", "."],
    "goal": ["!", "s", "(", "-", "1", ")", "[", "c", "]", ".", "+!s(X)", "."],
    "plan": ["@", "l", "[", "x", "]", "+", "!", "s", "(", "X", ")", ":", "p", "(", "X", ")", "<-", ".print", "(", "X", ")", ";", "a", "."],
    "steps": ["+!a.", "+!b.", "+?c.", "!s", ".", "+", "!", "s", "<-", "+", "p", ";", "-", "p", ";", "-+", "p", ";", "!", "a", ";", "!!", "b", ";", "?", "c", "."],
    "if": ["+", "!", "s", "<-", "if", "(", "p", ")", "{", "!", "s", ";", "}", "else", "{", "a", "}", ";", ".print", "(", "1", ")", "."],
    "while": ["+", "!", "s", "<-", "while", "(", "p", "&", "true", ")", "{", "-", "p", "}", "."],
    "for": ["+", "!", "s", "<-", "for", "(", ".member", "(", "X", ",", "[", "1", "]", ")", ")", "{", "+", "p", "(", "X", ")", "}", "."],
    "belief event": ["-", "p", "(", "X", ",", "2", ")", ":", "X", "=", "1", "<-", "?", "q", "(", "X", ")", "."],
    "test plan": ["+", "?", "t", "(", "X", ")", ":", "X", "\\==", "a", "<-", "X", "=", "3", "mod", "2", "."],
    "directive": ["{", "begin", "d", "(", "x", ")", "}", "p", ".", "{", "end", "}", "q", "."],
    "include": ["{", "include", "(", '"/nosuch/file.asl"', ")", "}", "q", "."],
    "arithmetic": ["!", "s", ".", "+", "!", "s", "<-", "X", "=", "(", "1", "-", "2", ")", "*", "-", "3", "**", "2", ";", ".print", "(", "X", "/", "2", ")", "."],
    "wait": ["+", "!", "s", "<-", ".wait", "(", '"+!e(X)"', ",", "100", ")", ";", ".send", "(", "a", ",", "tell", ",", "b", ")", "."],
}
ONE_TOKEN = ("replace", "insert")


@harness("C10", quick=[{"base": b, "kind": k, "half": h} for b in sorted(BASES) for k in ("replace", "insert") for h in (0, 1)] + [{"base": b, "kind": "cut", "half": None} for b in sorted(BASES)],
         thorough=[{"base": b, "kind": k, "half": h} for b in sorted(BASES) for k in ("replace", "insert", "two") for h in (0, 1)] + [{"base": b, "kind": "cut", "half": None} for b in sorted(BASES)],
         path_s=20, reach=["a failure is reported", "an agent without an error"])
def mutated(sx, base, kind, half):
    """a program with a token replaced, inserted, dropped or repeated"""
    toks = list(BASES[base])
    m = len(toks) // 2
    at = sx.choose("at", list(range(len(toks))) if half is None else list(range(m)) if half == 0 else list(range(m, len(toks))))
    if kind == "replace":
        toks[at] = sx.choose("token", VOCAB)
    elif kind == "insert":
        toks.insert(at, sx.choose("token", VOCAB))
    elif kind == "two":
        toks[at:at + 2] = [sx.choose("token", VOCAB), sx.choose("token", VOCAB)]
    else:
        k = sx.choose("cut", ["drop", "repeat", "end", "drop2", "swap", "begin"])
        if k == "drop":
            del toks[at]
        elif k == "repeat":
            toks.insert(at, toks[at])
        elif k == "end":
            del toks[at:]
        elif k == "begin":
            del toks[:at]
        elif k == "drop2":
            del toks[at:at + 2]
        else:
            toks[at:at + 2] = toks[at:at + 2][::-1]
    outcome(sx, " ".join(toks))


SHORT = ["a", "X", "1", '"s"', "true", "+", "-", "not", "&", "|", "(", ")", "[", "]", "{", "}", ",", ".", "<-", ":-", "!"]


@harness("C10", quick=[{"n": 3, "pre": p} for p in ("", "p(")], thorough=[{"n": 4, "pre": ""}] + [{"n": 3, "pre": p} for p in ("p(", "r :- ", "+!s <- ", "!s.\n+!s : ")], path_s=20,
         reach=["a failure is reported", "an agent without an error"])
def sequences(sx, n, pre):
    """all short sequences of tokens"""
    outcome(sx, pre + " ".join(sx.choose("t", SHORT) for _ in range(n)) + sx.choose("stop", [".", ""]))


@harness("C10", path_s=20, reach=["warnings alone never prevent loading"])
def warnings(sx):
    """programs that are warned about, but load"""
    src = "!s.\n+!s.\n" * sx.flag("s") + "".join(sx.choose("w", [x, ""]) for x in (sx.choose("vars", ["p(X).\n", "p(X, f(Y), Z)[a(W)].\n"]), ".a(1).\n", "-!g <- a.\n", "{ begin d }\nq.\n{ end }\n", "@l(1 + X) +!l.\n", "+!m.\nlate(1).\n", "r(X) :- s(Y).\n", "+!t <- nosuch(X, Y).\n"))
    w = World(sx)
    with Capture() as cap:
        try:
            w.build(src)
        except AggregatedError:
            sx.check(len(cap.errors()) > 0, "warnings alone never prevent loading")
            return
    sx.check(len(cap.errors()) == 0, "warnings alone never prevent loading")


@harness("C10", path_s=20, reach=["a belief with a variable is an implicit rule"])
def implicit_rules(sx):
    """beliefs with unbound variables are warned about and hold for every value"""
    shape, query, want = sx.choose("shape", [("p(X).", "p(%)", True), ("p(_, a).", "p(%, Z) & Z == a", True), ("p(X, X).", "p(%, Z) & Z == %", True), ("p([X|_]).", "p([%, 1])", True),
                                             ("p(X)[s(X)].", "p(%)[s(%)]", True), ("p(X, a).", "p(%, b)", False), ("p([X|_]).", "p([])", False), ("p(X, X).", "p(%, a)", False),
                                             ("p(X, Y, Z).", "p(%, b, 1)", True), ("p(W, [X|Y])[a(Z)].", "p(%, [1, 2])[a(%)]", True), ("p(X, Y, X, Z).", "p(%, 1, a, 2)", False)])
    w = World(sx)
    with Capture() as cap:
        try:
            w.build(shape + "\nn(%s).\n!q.\n+!q : n(N) & " % sx.choose("n", [3, 0]) + query.replace("%", "N") + " <- .rec(yes).\n+!q <- .rec(no).\n")
        except AggregatedError:
            sx.fail("a belief with a variable is an implicit rule")
    sx.check(len(cap.errors()) == 0 and len(cap.records) > 0, "a belief with a variable is an implicit rule")
    sx.check(w.run() == "ok", "a belief with a variable is an implicit rule")
    sx.check([r[0].functor for r in w.recs()] == ["yes" if want else "no"], "a belief with a variable is an implicit rule")
