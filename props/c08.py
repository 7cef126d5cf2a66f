"""C08: precedence and associativity of expressions."""

import logging

import agentspeak.lexer
import agentspeak.parser
from agentspeak import UnaryOp, BinaryOp, AggregatedError

from symx.api import harness
from .c07 import RefLexer, split_lines, one
from .prog import *

BOUNDS = {
    "quick": "expressions A op B op C with one operator slot of 2 or two of 1 symbolic characters (14 operator and bracket characters) and a symbolic sign; 4 operands with 3 operators out of all 18 and one representative per level, a prefix at any operand and one pair of parentheses at any place; literals, annotations and lists with symbolic separators; words with symbolic letters around div/mod/not",
    "thorough": "as quick with 3-character slots, all operators in two of three slots and two pairs of parentheses"}
OUTSIDE = ["expressions nested deeper than the Python stack", "the tokens themselves (C07)"]
ASSUMPTIONS = ["the structure is read off the nodes that agentspeak.parser.parse returns (left, right, operator, operand, terms, annotations, head, tail)"]


class Reject(Exception):
    pass


LEVELS = [["|"], ["&"], "not", ["<", "<=", ">", ">=", "==", "\\==", "=", "=.."], ["+", "-"], ["*", "/", "div", "mod"]]
BIN = {"|": BinaryOp.op_or, "&": BinaryOp.op_and, "<": BinaryOp.op_lt, "<=": BinaryOp.op_le, ">": BinaryOp.op_gt,
       ">=": BinaryOp.op_ge, "==": BinaryOp.op_eq, "\\==": BinaryOp.op_ne, "=": BinaryOp.op_unify, "=..": BinaryOp.op_decompose,
       "+": BinaryOp.op_add, "-": BinaryOp.op_sub, "*": BinaryOp.op_mul, "/": BinaryOp.op_truediv, "div": BinaryOp.op_floordiv,
       "mod": BinaryOp.op_mod, "**": BinaryOp.op_pow}
UN = {"not": UnaryOp.op_not, "-": UnaryOp.op_neg, "+": UnaryOp.op_pos}


class RefParser(object):
    """Operator-precedence parser over the reference tokens; trees are tuples."""

    def __init__(self, toks):
        self.toks = toks        # (kind, text)
        self.i = 0

    @property
    def k(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def take(self, k=None):
        if self.k is None or k is not None and self.k != k:
            raise Reject()
        self.i += 1
        return self.toks[self.i - 1][1]

    def binary(self, level):
        if level == len(LEVELS):
            return self.signed()
        ops = LEVELS[level]
        if ops == "not":
            if self.k == "not":
                self.take()
                return ("un", "not", self.binary(level))
            return self.binary(level + 1)
        left = self.binary(level + 1)
        if "<" in ops:
            # a chain of comparisons: all of them hold
            out, prev = None, left
            while self.k in ops:
                o = self.k
                self.take()
                right = self.binary(level + 1)
                c = ("bin", o, prev, right)
                out = c if out is None else ("bin", "&", out, c)
                prev = right
            return left if out is None else out
        while self.k in ops:
            o = self.k
            self.take()
            left = ("bin", o, left, self.binary(level + 1))
        return left

    def signed(self):
        if self.k in ("+", "-"):
            o = self.k
            self.take()
            return ("un", o, self.signed())
        x = self.atom()
        if self.k == "**":
            self.take()
            return ("bin", "**", x, self.signed())
        return x

    def expr(self):
        return self.binary(0)

    def seq(self, close, element):
        out = [element()]
        while self.k == ",":
            self.take()
            out.append(element())
        self.take(close)
        return tuple(out)

    def atom(self):
        k = self.k
        if k == "variable":
            return ("var", self.take())
        if k in ("true", "false"):
            self.take()
            return ("const", k == "true")
        if k == "string":
            return ("str", self.take())
        if k == "number":
            return ("num", self.take())
        if k == "(":
            self.take()
            x = self.expr()
            self.take(")")
            return x
        if k == "functor":
            f, args, annots = self.take(), (), ()
            if self.k == "(":
                self.take()
                args = self.seq(")", self.expr)
            if self.k == "[":
                self.take()
                annots = self.seq("]", self.expr)
            return ("lit", f, args, annots)
        if k == "[":
            self.take()
            if self.k == "]":
                self.take()
                return ("list", ())
            # | is the tail separator: elements bind tighter than it
            x = self.binary(1)
            if self.k == "|":
                xs = [x]
                while self.k == "|":
                    self.take()
                    xs.append(self.binary(1))
                self.take("]")
                t = xs.pop()
                while xs:
                    t = ("cons", xs.pop(), t)
                return t
            xs = [x]
            while self.k == ",":
                self.take()
                if self.k == "]":
                    break
                xs.append(self.binary(1))
            self.take("]")
            return ("list", tuple(xs))
        raise Reject()


def eq_tree(sx, node, t):
    """The parsed node is the tree t (a formula)."""
    P = agentspeak.parser
    k = t[0]
    if k == "bin":
        return isinstance(node, P.AstBinaryOp) and node.operator is BIN[t[1]] and \
            both(eq_tree(sx, node.left, t[2]), lambda: eq_tree(sx, node.right, t[3]), sx)
    if k == "un":
        return isinstance(node, P.AstUnaryOp) and node.operator is UN[t[1]] and eq_tree(sx, node.operand, t[2])
    if k == "var":
        return isinstance(node, P.AstVariable) and sx.eq(node.name, t[1])
    if k == "const":
        return isinstance(node, P.AstConst) and node.value is t[1]
    if k == "str":
        return isinstance(node, P.AstConst) and sx.eq(node.value, t[1][1:-1])
    if k == "num":
        return isinstance(node, P.AstConst) and not isinstance(node.value, (bool, str)) and sx.eq(node.value, int(str(t[1])))
    if k == "lit":
        return isinstance(node, P.AstLiteral) and sx.And(sx.eq(node.functor, t[1]), eq_seq(sx, node.terms, t[2]), eq_seq(sx, node.annotations, t[3]))
    if k == "list":
        return isinstance(node, P.AstList) and eq_seq(sx, node.terms, t[1])
    if k == "cons":
        return isinstance(node, P.AstLinkedList) and sx.And(eq_tree(sx, node.head, t[1]), eq_tree(sx, node.tail, t[2]))
    raise AssertionError(t)


def constant(t):
    """Has a part that folds: not true, not false."""
    if not isinstance(t, tuple):
        return False
    if len(t) == 3 and t[0] == "un" and t[2][0] == "const":
        return True
    return any(constant(x) for x in t)


def both(x, y, sx):
    return False if x is False else sx.And(x, y())


def eq_seq(sx, nodes, ts):
    return len(nodes) == len(ts) and sx.And(*[eq_tree(sx, n_, t) for n_, t in zip(nodes, ts)])


def compare(sx, text, prefix="r :- ", get=lambda agent: agent.rules[0].consequence):
    """The expression text (up to the final stop) against the reference."""
    text = prefix + text + "."
    log = agentspeak.Log(logging.getLogger("agentspeak.parser"))
    with Capture():
        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("e.asl", text), log)
        try:
            agent = agentspeak.parser.parse("e.asl", tokens, log)
            node = get(agent)
            more = len(agent.rules) + len(agent.beliefs) + len(agent.goals) + len(agent.plans) != 1
        except AggregatedError:
            node = None
    lines = split_lines(sx, text)
    want, illegal = RefLexer(sx).scan(lines)
    toks = [(k, lines[n_ - 1][i:j]) for k, n_, i, j in want]
    k0 = 2 if prefix.startswith("r ") else 0
    p = RefParser(toks)
    p.i = k0
    try:
        tree = p.expr()
        p.take(".")
        if p.i < len(toks):
            raise Reject()
    except Reject:
        tree = None
    if illegal:
        # reported by the lexer; whatever else is made of the rest
        sx.check(log.num_errors > 0, "text outside of the grammar is rejected")
        return
    if tree is None:
        if node is None:
            sx.check(log.num_errors > 0, "text outside of the grammar is rejected")
        else:
            # a full stop inside ended the rule early and the rest is a clause of its own
            sx.check(log.num_errors > 0 or more, "text outside of the grammar is rejected")
        return
    sx.assume(not constant(tree))       # folded while loading (C09)
    sx.check(node is not None, "text of the grammar is accepted")
    if node is not None:
        sx.check(eq_tree(sx, node, tree), "grouped by precedence and associativity")


OPCHARS = "*+-/<>=&|\\!( "


@harness("C08", quick=[{"n": 1, "w": 2}, {"n": 2, "w": 1}], thorough=[{"n": 1, "w": 3}, {"n": 2, "w": 2}, {"n": 3, "w": 1}], path_s=30,
         reach=["text outside of the grammar is rejected", "text of the grammar is accepted", "grouped by precedence and associativity"])
def slots(sx, n, w):
    """operators of symbolic characters between variables"""
    names = "ABCD"
    text = sx.text("u", 1, "+-( ") + "A"
    for i in range(n):
        text = text + sx.text("s", w, OPCHARS) + names[i + 1]
    if sx.flag("close"):
        text = text + ")"
    compare(sx, text)


ALL = sorted(BIN)
REP = ["|", "&", "<", "+", "-", "*", "**", "=", "mod"]
FEW = ["|", "&", "<", "-", "*", "**"]


@harness("C08", quick=[{"wide": 0}, {"wide": 1}, {"wide": 2}], thorough=[{"wide": None}, {"wide": 0, "parens": 2}], path_s=30,
         reach=["text of the grammar is accepted", "grouped by precedence and associativity", "text outside of the grammar is rejected"])
def levels(sx, wide, parens=1):
    """four operands, three operators, prefixes and parentheses"""
    ops = [sx.choose("op", ALL if wide in (i, None) else FEW) for i in range(3)]
    at = sx.choose("at", [None, 0, 1, 2, 3] if wide != 1 else [None, 1, 2])
    pre = sx.choose("pre", ["- ", "not ", "not - ", "not not ", "- + "]) if at is not None else ""
    spans = [None, (0, 1), (1, 2), (2, 3), (0, 2), (1, 3)]
    got = [sx.choose("paren", spans) if at is None or parens > 1 else None for _ in range(parens)]
    text = ""
    for i in range(4):
        text += "".join("(" for g in got if g and g[0] == i)
        text += (pre if at == i else "") + "ABCD"[i]
        text += "".join(")" for g in got if g and g[1] == i)
        if i < 3:
            text += " " + ops[i] + " "
    compare(sx, text)


TEMPLATES = {
    "args": "f(A%B%C)", "annots": "f(A)[B%C]", "list": "[A%B%C]", "nested": "[A|%B%C]", "open": "f%A, B%",
    "after": "f(A)%B%", "tail": "[A, B%C%", "mixed": "A + f(B%)%C", "start": "%f(A)%", "brackets": "(A%(B%C", "heads": "[A|B%C%D]"}
SEPS = "|&,<-+)](["


@harness("C08", quick=[{"t": t_, "w": 1} for t_ in sorted(TEMPLATES)] + [{"t": t_, "w": 2} for t_ in ("mixed",)],
         thorough=[{"t": t_, "w": 2} for t_ in sorted(TEMPLATES)], path_s=30,
         reach=["text of the grammar is accepted", "grouped by precedence and associativity", "text outside of the grammar is rejected"])
def structures(sx, t, w):
    """literals, annotations, lists and parentheses with symbolic separators"""
    parts = TEMPLATES[t].split("%")
    text = parts[0]
    for p in parts[1:]:
        text = text + sx.text("s", w, SEPS) + p
    compare(sx, text)


@harness("C08", cases=[{"word": w_} for w_ in ("div", "mod", "not", "true", "false")], path_s=30,
         reach=["text of the grammar is accepted", "text outside of the grammar is rejected"])
def words(sx, word):
    """operators that are words, next to symbolic letters and digits"""
    a_ = sx.choose("a", ["A ", "f ", "2 ", "not ", ""])
    b = sx.choose("b", ["B", "f(B)", "- B", "not B", ""])
    compare(sx, a_ + sx.text("x", 1, " a-(") + word + sx.text("y", 1, " a1-)") + b)


@harness("C08", quick=[{"n": 3}], thorough=[{"n": 4}], path_s=30, reach=["grouped by precedence and associativity"])
def chains(sx, n):
    """chains of comparisons between sums"""
    cs = LEVELS[3]
    text = "A"
    for i in range(n):
        text += " " + sx.choose("c", cs if i != 1 else ["<", "==", "=", ">="]) + " " + sx.choose("x", ["B", "- B", "B + C"] if i == 0 else ["D"])
    text += sx.choose("z", ["", " & E", " | E < F"])
    compare(sx, sx.choose("n", ["", "not "]) + text)


PLACES = {
    "goal": ("!f(", ")", lambda ag: ag.goals[0].atom.terms[0]),
    "belief": ("f(", ")", lambda ag: ag.beliefs[0].terms[0]),
    "context": ("+!s : ", "", lambda ag: ag.plans[0].context),
    "step": ("+!s <- ", "", lambda ag: ag.plans[0].body.formulas[0].term),
    "if": ("+!s <- if (", ") { x }", lambda ag: ag.plans[0].body.formulas[0].condition),
    "while": ("+!s <- while (", ") { x }", lambda ag: ag.plans[0].body.formulas[0].condition),
    "for": ("+!s <- for (", ") { x }", lambda ag: ag.plans[0].body.formulas[0].generator),
    "annotation": ("f[", "]", lambda ag: ag.beliefs[0].annotations[0]),
    "subgoal": ("+!s <- !f(", ")", lambda ag: ag.plans[0].body.formulas[0].term.terms[0]),
    "element": ("f([", "])", lambda ag: ag.beliefs[0].terms[0].terms[0]),
}


@harness("C08", cases=[{"place": p} for p in sorted(PLACES)], path_s=30,
         reach=["grouped by precedence and associativity"])
def places(sx, place):
    """the same grammar wherever an expression may stand"""
    pre, post, get = PLACES[place]
    s1, s2 = sx.choose("o", REP), sx.choose("o", REP)
    text = sx.choose("u", ["", "not ", "p - "]) + "A " + s1 + " " + sx.choose("v", ["", "-"]) + "B " + s2 + " C"
    p = RefParser([])
    lines = split_lines(sx, text)
    want, _ = RefLexer(sx).scan(lines)
    p.toks = [(k, lines[0][i:j]) for k, _, i, j in want]
    log = agentspeak.Log(logging.getLogger("agentspeak.parser"))
    if place == "element":
        # | separates the tail here
        sx.assume("|" not in (s1, s2))
    tree = p.expr()
    assert p.k is None
    with Capture():
        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("e.asl", pre + text + post + "."), log)
        node = get(agentspeak.parser.parse("e.asl", tokens, log))
    sx.check(eq_tree(sx, node, tree), "grouped by precedence and associativity")
