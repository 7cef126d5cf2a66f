"""C06: printing and reading back."""

import enum
import logging

import agentspeak.lexer
import agentspeak.parser
from agentspeak import LinkedList, parse_string, asl_repr

from symx.api import harness, norm, flat_ll
from .prog import *

BOUNDS = {
    "quick": "strings of 1 arbitrary character up to code point 0x10ffff and of 2-3 characters of 5 alphabets (quotes, backslashes, control characters, non-ASCII, escapes); terms of nesting depth 2 over 11 shapes with symbolic numbers and string characters; rules, goals, conditions, plans and programs of 2 operators, 2 nested statements and symbolic constants",
    "thorough": "2-3 arbitrary characters, 4 characters of each alphabet; terms of depth 3; 3 operators, 3 nested statements"}
OUTSIDE = ["infinity and not-a-number", "integers beyond machine precision (the language only has decimals of that size)",
           "an else branch without steps is dropped when printed", r"\N{name} escapes"]
ASSUMPTIONS = ["the unicode_escape codec is modelled by symx/text.py (each path is replayed on the real one)"]


def load(sx, src):
    """The parsed program, or None when an error was reported."""
    log = agentspeak.Log(logging.getLogger("agentspeak.parser"))
    with Capture():
        try:
            tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("e.asl", src), log)
            agent = agentspeak.parser.parse("e.asl", tokens, log)
        except AggregatedError:
            return None
    return agent if log.num_errors == 0 else None


def facts(sx, src):
    """The believed terms p(T) after running the program."""
    status, w = run_source(sx, src + "\n!s.\n+!s <- for (p(X)) { .rec(X) }.\n")
    return status, w.recs()


# -- strings -------------------------------------------------------------------------

ALPHABETS = {"quotes": '"\\\'a', "control": "\n\t\r\0\x7f\\", "unicode": "a\xe9\xff\u0100\u20ac\ud800\U0001f600", "escapes": "\\nx4u0N", "lines": "\x85\u2028\x0b \\"}


@harness("C06", quick=[{"n": 1, "alphabet": None}] + [{"n": 2, "alphabet": k} for k in sorted(ALPHABETS)] + [{"n": 3, "alphabet": "quotes"}],
         thorough=[{"n": 2, "alphabet": None}, {"n": 3, "alphabet": None}] + [{"n": n_, "alphabet": k} for k in sorted(ALPHABETS) for n_ in (3, 4)], path_s=30,
         reach=["a printed string reads back as the same characters"])
def strings(sx, n, alphabet):
    """any string: printed, then read as a constant of a program"""
    s = sx.text("s", n, maxcp=0x10ffff) if alphabet is None else sx.text("s", n, ALPHABETS[alphabet])
    t = asl_repr(s)
    status, rows = facts(sx, "p(" + t + ").")
    sx.check(status == "ok" and len(rows) == 1, "a printed string is a constant")
    if status == "ok" and len(rows) == 1:
        sx.check(sx.eq(rows[0][0], s), "a printed string reads back as the same characters")


ESC = {"n": 10, "t": 9, "r": 13, "a": 7, "b": 8, "f": 12, "v": 11, "\\": 92, '"': 34, "'": 39}


def decode(sx, s):
    """Reference for the characters between the quotes; None when the escape is malformed."""
    out = ""
    i = 0

    def at(j, ranges):
        return j < len(s) and sx.char_in(s[j:j + 1], ranges)

    def digits(j, n_, base):
        v_ = 0
        for k in range(n_):
            for d in range(base):
                c = "0123456789abcdef"[d]
                if at(j + k, [(ord(c), ord(c))] + ([(ord(c.upper()), ord(c.upper()))] if d > 9 else [])):
                    v_ = v_ * base + d
                    break
            else:
                return None
        return v_
    while i < len(s):
        if not at(i, [(92, 92)]):
            out = out + s[i:i + 1]
            i += 1
            continue
        for c, v_ in ESC.items():
            if at(i + 1, [(ord(c), ord(c))]):
                out = out + chr(v_)
                i += 2
                break
        else:
            for c, w in (("x", 2), ("u", 4)):
                if at(i + 1, [(ord(c), ord(c))]):
                    v_ = digits(i + 2, w, 16)
                    if v_ is None:
                        return None
                    out = out + chr(v_)
                    i += 2 + w
                    break
            else:
                k = 0
                while k < 3 and at(i + 1 + k, [(48, 55)]):
                    k += 1
                if k:
                    out = out + chr(digits(i + 1, k, 8))
                    i += 1 + k
                else:
                    # not an escape: both characters stay
                    out = out + s[i:i + 1] + s[i + 1:i + 2]
                    i += 2
    return out


@harness("C06", quick=[{"n": 1, "alphabet": None}, {"n": 2, "alphabet": "a\\\xe9\u20ac"}, {"n": 3, "alphabet": "\\nx4q"}, {"n": 4, "alphabet": "\\x4e"}, {"n": 4, "alphabet": "\\07a"}],
         thorough=[{"n": 2, "alphabet": None}, {"n": 4, "alphabet": "\\nx4q\xe9"}, {"n": 5, "alphabet": "\\x4e"}, {"n": 5, "alphabet": "\\07a"}, {"n": 6, "alphabet": "\\u0e"}], path_s=30,
         reach=["a string constant denotes the characters between the quotes"])
def constants(sx, n, alphabet):
    """a string constant of a program denotes what is written between the quotes"""
    s = sx.text("s", n, maxcp=0xffff) if alphabet is None else sx.text("s", n, alphabet)
    # no quote or line end, and no backslash before the closing quote
    i = 0
    while i < len(s):
        sx.assume(not sx.char_in(s[i:i + 1], [(34, 34), (10, 10)]))
        if sx.char_in(s[i:i + 1], [(92, 92)]):
            sx.assume(i + 1 < len(s))
            sx.assume(not sx.char_in(s[i + 1:i + 2], [(10, 10), (78, 78), (256, 0x10ffff)]))
            i += 1
        i += 1
    want = decode(sx, s)
    status, rows = facts(sx, 'p("' + s + '").')
    if want is None:
        sx.check(status == "load-error", "malformed escapes are reported")
        return
    sx.check(status == "ok" and len(rows) == 1, "a string constant denotes the characters between the quotes")
    if status == "ok" and len(rows) == 1:
        sx.check(sx.eq(rows[0][0], want), "a string constant denotes the characters between the quotes")


# -- terms ---------------------------------------------------------------------------

NUMBERS = [0.1, -0.1, 1e22, 1e-7, 123456789.123, 1 / 3, 2.5e-300, 1.7976931348623157e308, 5e-324, 1e15 + 0.5, -0.0, 1e16, 123456789012.0, 0.30000000000000004]


def term(sx, d):
    k = sx.choose("k", ["int", "frac", "special", "bool", "str", "atom", "~"] + (["lit", "list", "cons", "annots", "empty"] if d else []))
    if k == "int":
        return sx.num("i", -5, 5)
    if k == "frac":
        return sx.num("f", -2, 2, "float", den=4)
    if k == "special":
        return sx.choose("special", NUMBERS) if d == 2 else sx.choose("special", [-0.1, 1e22])
    if k == "bool":
        return sx.flag("b")
    if k == "str":
        return sx.text("s", 1, 'a"\\\n,') if d < 2 else sx.choose("str", ["", '", a("', "a]|[b", "%s"])
    if k == "atom":
        return Literal("a")
    if k == "~":
        return Literal("~b.c")
    if k == "lit":
        return Literal("f", [term(sx, d - 1)] + ([term(sx, 0)] if sx.flag("two") else []))
    if k == "list":
        return (term(sx, d - 1),) + ((term(sx, 0),) if sx.flag("two") else ())
    if k == "cons":
        return LinkedList(term(sx, d - 1), sx.choose("tail", [(), (1.0, 2.0), LinkedList(Literal("x"), ())]))
    if k == "annots":
        return Literal("g", (), [Literal("source", [term(sx, d - 1)])] + ([Literal("z")] if sx.flag("two") else []))
    return ()


@harness("C06", quick=[{"d": 2}], thorough=[{"d": 3}], path_s=30, reach=["a printed term reads back as an equal term"])
def terms(sx, d):
    """any ground term: printed, then read as an argument"""
    t = term(sx, d)
    status, rows = facts(sx, "p(" + asl_repr(t) + ").")
    sx.check(status == "ok" and len(rows) == 1, "a printed term is a term")
    if status == "ok" and len(rows) == 1:
        sx.check(sx.same_n(flat_ll(norm(rows[0][0], {})), flat_ll(norm(t, {}))), "a printed term reads back as an equal term")


@harness("C06", path_s=30, reach=["a printed term reads back as an equal term"])
def beliefs(sx):
    """an agent's beliefs, printed as .send would show them, with annotations"""
    t = Literal("p", [term(sx, 1)], [Literal("source", [term(sx, 0)])] + ([Literal("k")] if sx.flag("two") else []))
    w = World(sx)
    try:
        w.build(sx.str(t) + ".")
    except (AggregatedError, AslError):
        sx.fail("a printed term is a term")
        return
    got = [b for bs in w.env.agents["ag"].beliefs.values() for b in bs]
    sx.check(len(got) == 1 and sx.same_n(flat_ll(norm(got[0], {})), flat_ll(norm(t, {}))), "a printed term reads back as an equal term")


# -- programs ------------------------------------------------------------------------

SKIP = ("loc", "proven_bound", "proven_unbound", "args", "annotation_terms")


def same_node(sx, x, y):
    """Formula: the parsed structures agree (locations aside)."""
    if isinstance(x, agentspeak.parser.AstNode):
        if type(x) is not type(y):
            return False
        ks = [k for k in sorted(vars(x)) if k not in SKIP and not k.startswith("_")]
        return sx.And(*[same_node(sx, no_else(x, k), no_else(y, k)) for k in ks])
    if isinstance(x, (list, tuple)):
        return isinstance(y, (list, tuple)) and len(x) == len(y) and sx.And(*[same_node(sx, p, q) for p, q in zip(x, y)])
    if isinstance(x, enum.Enum) or x is None or isinstance(x, bool):
        return x is y
    return not isinstance(y, (bool, enum.Enum)) and y is not None and sx.same_n(norm(x, {}), norm(y, {}))


def no_else(node, k):
    x = getattr(node, k)
    return None if k == "else_body" and x is not None and not x.formulas else x


def roundtrip(sx, src):
    one = load(sx, src)
    sx.assume(one is not None)
    text = sx.str(one)
    two = load(sx, text)
    sx.check(two is not None, "a printed program is a program")
    if two is not None:
        sx.check(same_node(sx, one, two), "a printed program reads back as the same program")
        sx.check(sx.eq(sx.str(two), text), "printing again gives the same text")


def const(sx):
    return sx.choose("const", ["X", "Y", "num", "str", "p(1)"])


def expr(sx, d, numeric, sym=True, small=False):
    """Text of an expression with d operators."""
    if d == 0:
        k = sx.choose("leaf", ["X", "-num", "cons", "list"] if numeric == "any" and not small else (["X", "-num"] if small else ["X", "num", "-num", "frac"]) if numeric else ["X", "str", "lit"] if small else ["X", "str", "lit", "true", "list", "cons"])
        if k in ("num", "-num"):
            t = sx.numeral(sx.num("n", 0, 9)) if sym else sx.choose("m", ["2", "3"])
            return t if k == "num" else "(-" + t + ")"
        if k == "frac":
            return sx.choose("frac", ["2.5", "1e22"])
        if k == "str":
            return '"' + sx.text("s", 1, "a,]") + sx.choose("esc", ["", "\\n", '\\"', "\\\\"]) + '"'
        return {"X": "X", "lit": "q(X, -1)[a, b(2)]", "true": "true", "list": "[X, -2, [a]]", "cons": sx.choose("cons", ["[a|[X|T]]", "[[]|[-1|[[X]|T]]]", "[[a|X]|[]]", "[X|[Y, 1]]"]) if numeric == "any" else "[a|[X|T]]"}[k]
    k = sx.choose("op", ["+", "-", "*", "/", "div", "mod", "**", "u-", "u+"] if numeric else ["&", "|", "not", "<", "=", "=.."])
    if k in ("u-", "u+"):
        return k[1] + " " + expr(sx, d - 1, True, sym, small) if sx.flag("bare") else "(" + k[1] + expr(sx, d - 1, True, sym, small) + ")"
    if k == "not":
        return "not " + par(sx, expr(sx, d - 1, False, True, small))
    sub = numeric or (k in ("<", "=", "=..") and "any")
    # no symbolic operands where folding would compute products or powers of them
    sym = sym and k not in ("*", "/", "div", "mod", "**")
    l, r = expr(sx, d - 1, sub, sym, small), expr(sx, 0, sub, sym, small)
    if d > 1 and sx.flag("swap"):
        l, r = r, l
    if small:
        return "(" + l + ") " + k + " (" + r + ")" if sx.flag("par") else l + " " + k + " " + r
    return par(sx, l) + " " + k + " " + par(sx, r)


def par(sx, t):
    return "(" + t + ")" if sx.flag("par") else t


PLACES = {
    "rule": "r(X) :- %s.\n", "argument": "!s.\n+!s : q(X) <- .rec(f(%s), [%s, 1], [%s|T]).\n", "context": "+!s : %s <- x.\n",
    "if": "+!s <- if (%s) { x } else { y }.\n", "chain": "r(X) :- %s < Y == Z.\n",
}


@harness("C06", quick=[{"place": "rule", "d": 2, "numeric": False}, {"place": "argument", "d": 2, "numeric": True}] + [{"place": p, "d": 1, "numeric": p in ("argument", "chain")} for p in sorted(PLACES)],
         thorough=[{"place": p, "d": 2, "numeric": p in ("argument", "chain")} for p in sorted(PLACES)] + [{"place": "argument", "d": 3, "numeric": True}], path_s=30,
         reach=["a printed program reads back as the same program", "printing again gives the same text"])
def expressions(sx, place, d, numeric):
    """expressions of constants and variables"""
    e = expr(sx, d, numeric, True, d > 1)
    pieces = PLACES[place].split("%s")
    text = pieces[0]
    for p in pieces[1:]:
        text = text + e + p
    roundtrip(sx, text)


def statements(sx, d, n):
    out = ""
    for i in range(n):
        k = sx.choose("st", ["simple", "if", "ifelse", "while", "for", "emptyif"] if d == 2 else ["simple", "ifelse", "while", "emptyif"] if d else ["simple"])
        last = i == n - 1
        if k == "simple":
            f = sx.choose("f", ["!", "!!", "?", "+", "-", "-+", ""] if d == 2 else ["!", ""])
            out += f + sx.choose("t", ["g(X, 1)[a(X)]", "Z"] if f in ("!", "+") and d == 2 else ["g(X, -1)"]) + ("" if last else "; ")
            continue
        body = statements(sx, d - 1, sx.choose("n", [1, 2]) if d == 1 else 1) + sx.choose("semi", ["", ";"]) if k != "emptyif" else ""
        head = {"if": "if (p(X) & X > 1) { ", "ifelse": "if (not p(X)) { ", "emptyif": "if (true) { ", "while": "while (p(X)) { ", "for": "for (.range(3, X)) { "}[k]
        out += head + body + " }" + (" else { " + sx.choose("else", ["a", "!b; c;", "if (x) { y } else { z }"] if d == 2 else ["!b; c;"]) + " }" if k == "ifelse" else "")
        out += "" if last else sx.choose("sep", [" ", "; "])
    return out


@harness("C06", quick=[{"d": 2, "n": 1}, {"d": 1, "n": 2}], thorough=[{"d": 2, "n": 2}, {"d": 3, "n": 1}], path_s=30,
         reach=["a printed program reads back as the same program", "printing again gives the same text"])
def plans(sx, d, n):
    """plans with nested statements"""
    roundtrip(sx, "+!s(X) <- " + statements(sx, d, n) + ".\n")


@harness("C06", path_s=30, reach=["a printed program reads back as the same program", "printing again gives the same text"])
def programs(sx):
    """whole programs: beliefs, rules, goals, and plans of every trigger"""
    trig = sx.choose("trigger", ["+", "-", "+!", "-!", "+?", "-?"])
    label = sx.choose("label", ["", "@l ", "@l(1)[atomic, x(2)] "])
    args = sx.choose("args", ["", "(X, [Y|T], \"a(b)\")", "(-1)", "(f(g(X)))[source(S), a]"])
    ctx = sx.choose("context", ["", " : true", " : p & not q(_)"])
    body = sx.choose("body", ["", " <- a", " <- true", " <- .print(\"x;y\"); -p(_)"])
    src = sx.choose("belief", ["", "p(1)[a].\n", "~p(-2, \"x\").\np.\np(1) .\n"]) + sx.choose("rule", ["", "r(X) :- p(X) | not p(_).\n", "r :- true.\nr(1, 2)[a] :- q.\n"])
    src += sx.choose("goal", ["", "!s.\n!t(1)[b].\n"]) + label + trig + "e" + args + ctx + body + ".\n+!last.\n"
    roundtrip(sx, src)
