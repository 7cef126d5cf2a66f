"""C07: tokenising."""

import logging

import agentspeak.lexer
from agentspeak import Trigger, GoalType, FormulaType, UnaryOp, BinaryOp

from symx.api import harness
from .prog import *

BOUNDS = {
    "quick": "texts of symbolic characters: 2 arbitrary characters up to code point 300; 4 characters out of each of the operator, word, number, string and comment alphabets; every keyword with one symbolic character before and two after it; 2 lines with comments opened and closed at symbolic places",
    "thorough": "3 arbitrary characters; 5-6 characters of each alphabet"}
OUTSIDE = ["digits outside of ASCII", "sources whose lines are not separated by line feeds"]
ASSUMPTIONS = ["the regular expression engine and the string methods are modelled by symx/text.py (each path is replayed on the real ones)"]

KEYWORDS = ["true", "false", "not", "div", "mod", "if", "else", "while", "for", "include", "begin", "end"]
OPS = ["(", ")", "[", "]", "{", "}", "<-", ":-", ":", "|&|", "|||", "!!", "!", "?", "-+", "+", "-", "**", "*", "/", "&", "|",
       "<=", ">=", "\\==", "==", "=..", "=", "<", ">", ".", ",", ";", "@"]
OPS.sort(key=lambda o: -len(o))
LOWER, UPPER, DIGIT = [(97, 122)], [(65, 90)], [(48, 57)]
WORD = LOWER + UPPER + DIGIT + [(95, 95)]
SPACE = [(9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f),
         (0x205f, 0x205f), (0x3000, 0x3000)]


def one(s):
    return [(ord(c), ord(c)) for c in s]


class RefLexer(object):
    """Hand-written scanner (no regular expressions)."""

    def __init__(self, sx):
        self.sx = sx

    def at(self, i, ranges):
        return i < len(self.line) and self.sx.char_in(self.line[i:i + 1], ranges)

    def lit(self, i, s):
        return all(self.at(i + k, one(c)) for k, c in enumerate(s))

    def run(self, i, ranges):
        while self.at(i, ranges):
            i += 1
        return i

    def number(self, i):
        """End of the number at i, or i."""
        j = self.run(i, DIGIT)
        if self.at(j, one(".")) and self.at(j + 1, DIGIT):
            j = self.run(j + 1, DIGIT)
        if j == i:
            return i
        if self.at(j, one("eE")):
            k = j + 1
            if self.at(k, one("+-")):
                k += 1
            if self.at(k, DIGIT):
                j = self.run(k, DIGIT)
        return j

    def name(self, i):
        """End of the functor at i (after the sign), or i."""
        j = i
        while True:
            k = j + 1 if self.at(j, one(".")) else j
            if not self.at(k, LOWER):
                return j
            if k == j and j != i:
                return j
            j = self.run(k, WORD)

    def string(self, i):
        j = i + 1
        while j < len(self.line):
            if self.at(j, one('"')):
                return j + 1
            if self.at(j, one("\\")):
                if j + 1 >= len(self.line) or self.at(j + 1, one("\n")):
                    return i
                j += 1
            j += 1
        return i

    def keyword(self, i):
        for k in KEYWORDS:
            if self.lit(i, k) and not self.at(i + len(k), WORD):
                return k
        return None

    def scan(self, lines):
        out, illegal = [], []
        comment = False
        for n, line in enumerate(lines):
            self.line = line
            i = 0
            while i < len(line):
                if comment:
                    while i < len(line) and not self.lit(i, "*/"):
                        i += 1
                    if i < len(line):
                        comment = False
                        i += 2
                    continue
                if self.lit(i, "/*"):
                    comment = True
                    i += 2
                    continue
                if self.at(i, SPACE):
                    i += 1
                    continue
                if self.lit(i, "//") or self.at(i, one("#")):
                    while i < len(line) and not self.at(i, one("\n")):
                        i += 1
                    continue
                kind, j = self.token(i)
                if j == i:
                    illegal.append((n + 1, i))
                    i += 1
                else:
                    out.append((kind, n + 1, i, j))
                    i = j
        return out, illegal

    def token(self, i):
        if self.at(i, one('"')):
            return "string", self.string(i)
        if self.at(i, DIGIT) or self.at(i, one(".")) and self.at(i + 1, DIGIT):
            return "number", self.number(i)
        if self.at(i, UPPER):
            return "variable", self.run(i, WORD)
        if self.at(i, one("_")):
            j = self.run(i, one("_"))
            if self.at(j, UPPER):
                j = self.run(j, WORD)
            return "variable", j
        if self.at(i, one("~")):
            if self.keyword(i + 1) is not None:
                return None, i
            j = self.name(i + 1)
            return "functor", (j if j > i + 1 else i)
        if self.at(i, LOWER) or self.at(i, one(".")) and self.at(i + 1, LOWER):
            k = self.keyword(i)
            if k is not None:
                return k, i + len(k)
            return "functor", self.name(i)
        for o in OPS:
            if self.lit(i, o):
                return o, i + len(o)
        return None, i


FLAGS = ("space", "comment", "functor", "numeric", "variable", "string", "boolean", "trigger", "goal_type", "formula_type",
         "unary_op", "mult_op", "add_op", "comp_op")
ROLES = {
    "functor": {"functor": True}, "number": {"numeric": True}, "variable": {"variable": True}, "string": {"string": True},
    "true": {"boolean": True}, "false": {"boolean": False},
    "!!": {"formula_type": FormulaType.achieve_later}, "!": {"formula_type": FormulaType.achieve, "goal_type": GoalType.achievement},
    "?": {"formula_type": FormulaType.test, "goal_type": GoalType.test}, "-+": {"formula_type": FormulaType.replace},
    "+": {"unary_op": UnaryOp.op_pos, "add_op": BinaryOp.op_add, "trigger": Trigger.addition, "formula_type": FormulaType.add},
    "-": {"unary_op": UnaryOp.op_neg, "add_op": BinaryOp.op_sub, "trigger": Trigger.removal, "formula_type": FormulaType.remove},
    "*": {"mult_op": BinaryOp.op_mul}, "/": {"mult_op": BinaryOp.op_truediv}, "div": {"mult_op": BinaryOp.op_floordiv},
    "mod": {"mult_op": BinaryOp.op_mod}, "<=": {"comp_op": BinaryOp.op_le}, ">=": {"comp_op": BinaryOp.op_ge},
    "\\==": {"comp_op": BinaryOp.op_ne}, "==": {"comp_op": BinaryOp.op_eq}, "=..": {"comp_op": BinaryOp.op_decompose},
    "=": {"comp_op": BinaryOp.op_unify}, "<": {"comp_op": BinaryOp.op_lt}, ">": {"comp_op": BinaryOp.op_gt}}


def split_lines(sx, text):
    lines, cur = [], 0
    for i in range(len(text)):
        if sx.char_in(text[i:i + 1], one("\n")):
            lines.append(text[cur:i + 1])
            cur = i + 1
    if cur < len(text):
        lines.append(text[cur:])
    return lines


def compare(sx, text, first=1):
    lines = split_lines(sx, text)
    log = agentspeak.Log(logging.getLogger("agentspeak.lexer"))
    with Capture() as cap:
        toks = list(agentspeak.lexer.tokenize(agentspeak.StringSource("src.asl", text), log, first))
    want, illegal = RefLexer(sx).scan(lines)
    sx.check(len(toks) == len(want), "each word is one token")
    sx.check([(t.loc.lineno, t.loc.startcol, t.loc.endcol) for t in toks] == [(n + first - 1, i, j) for _, n, i, j in want],
             "locations point at the text")
    errs = [l for level, l in cap.records if level == "ERROR"]
    sx.check(log.num_errors == len(illegal) and [(l.lineno, l.startcol) for l in errs] == [(n + first - 1, i) for n, i in illegal],
             "illegal characters are reported where they are")
    for t, (kind, n, i, j) in zip(toks, want):
        sx.check(sx.And(sx.eq(t.lexeme, lines[n - 1][i:j]), sx.eq(t.loc.line, lines[n - 1])), "the token is its text")
        sx.check(t.loc.filename == "src.asl", "the token is its text")
        role = ROLES.get(kind, {})
        for f in FLAGS:
            v_ = getattr(t.token, f)
            if not (v_ == role[f] and type(v_) is type(role[f]) if f in role else v_ is None or v_ is False and f != "boolean"):
                sx.fail("classified correctly")
    sx.check(True, "classified correctly")


@harness("C07", quick=[{"n": 2}], thorough=[{"n": 3}], path_s=30,
         reach=["each word is one token", "locations point at the text", "illegal characters are reported where they are", "the token is its text", "classified correctly"])
def arbitrary(sx, n):
    """any characters"""
    compare(sx, sx.text("t", n, maxcp=300))


ALPHABETS = {"arrows": "<-=:>.\\ ", "logic": "|&!*/+-?", "words": "aA_1.~- ", "numbers": "1.eE+-a", "strings": '"\\a \n/', "comments": "/*#\na\"", "sentence": "a.1 A(\n"}


@harness("C07", quick=[{"alphabet": a_, "n": n_} for a_ in sorted(ALPHABETS) for n_ in (3, 4)],
         thorough=[{"alphabet": a_, "n": n_} for a_ in sorted(ALPHABETS) for n_ in (3, 4, 5)] + [{"alphabet": a_, "n": 6} for a_ in ("strings", "comments")], path_s=30,
         reach=["each word is one token", "the token is its text"])
def alphabet(sx, alphabet, n):
    """operators, words, numbers, strings and comments"""
    compare(sx, sx.text("t", n, ALPHABETS[alphabet]), first=sx.choose("firstline", [1, 7]))


@harness("C07", cases=[{"keyword": k} for k in KEYWORDS], path_s=30, reach=["each word is one token"])
def keywords(sx, keyword):
    """keywords only when they stand alone"""
    pre = sx.text("p", sx.choose("pre", [0, 1]), "a.A1_~(!\" ")
    k = sx.choose("cut", [len(keyword), len(keyword) - 1])
    post = sx.text("s", sx.choose("post", [0, 1, 2]), "aA1_.(- e")
    compare(sx, pre + keyword[:k] + post)


@harness("C07", quick=[{"n": 2}], thorough=[{"n": 2}, {"n": 3}], path_s=30, reach=["each word is one token", "locations point at the text"])
def lines(sx, n):
    """comments and strings over several lines"""
    text = ""
    for i in range(n):
        text = text + (sx.choose("l", ["a ", ""]) if n == 2 or i == 0 else "") + sx.text("t", 2, "/*\"#b") + (sx.choose("e", ["\n", " c\n"]) if n == 2 or i == 1 else "\n")
    compare(sx, text)
