"""C29: programs are read as the statements that are written."""

import logging

import agentspeak.lexer
import agentspeak.parser
from agentspeak import Trigger, GoalType, FormulaType, AggregatedError

from symx.api import harness
from .c07 import RefLexer, split_lines
from .c08 import RefParser, Reject, eq_tree
from .c10 import BASES
from .prog import *

BOUNDS = {
    "quick": "24 program templates (every kind of statement, plan head, step, block, directive) with 1-3 slots of 1 symbolic character (6 with a first slot of 2) out of 17 punctuation characters; 14 programs covering every construct with one token replaced, inserted, dropped, repeated, swapped or cut off at a symbolic position, out of 40 tokens; bodies of 3 steps out of 14 kinds with symbolic separators and nesting",
    "thorough": "slots of 2-3 characters everywhere, two adjacent tokens replaced, bodies of 4 steps"}
OUTSIDE = ["what is inside of expressions (C08)", "nesting deeper than the Python stack", "texts of the grammar whose expressions are refused for their types or folded while loading (only their rejection is reported, C10, C09)"]
ASSUMPTIONS = ["the structure is read off the nodes that agentspeak.parser.parse returns"]

FT = {"!": FormulaType.achieve, "!!": FormulaType.achieve_later, "?": FormulaType.test, "+": FormulaType.add, "-": FormulaType.remove, "-+": FormulaType.replace}
CONST = ("const", "num", "str")


class RefProgram(RefParser):
    """Recursive descent over the reference tokens, written from the documented grammar."""

    def __init__(self, toks):
        super(RefProgram, self).__init__(toks)
        self.rules, self.beliefs, self.goals, self.plans = [], [], [], []
        self.includes = 0

    def literal(self):
        if self.k != "functor":
            raise Reject()
        return self.atom()

    def statements(self, directive=False):
        while self.k is not None:
            if self.k == "{":
                self.take()
                if self.k == "include":
                    for k in ("include", "(", "string", ")", "}"):
                        self.take(k)
                    self.includes += 1
                elif self.k == "begin":
                    self.take()
                    self.literal()
                    self.take("}")
                    self.statements(True)
                else:
                    self.take("end")
                    self.take("}")
                    if not directive:
                        raise Reject()
                    return
            elif self.k == "functor":
                head = self.literal()
                if self.k == ":-":
                    self.take()
                    self.rules.append((head, self.expr()))
                else:
                    self.beliefs.append(head)
                self.take(".")
            elif self.k == "!":
                self.take()
                self.goals.append(self.literal())
                self.take(".")
            else:
                self.plan()
                self.take(".")
        if directive:
            raise Reject()

    def plan(self):
        label = None
        if self.k == "@":
            self.take()
            label = self.literal()
        if self.k not in ("+", "-"):
            raise Reject()
        trigger = {"+": Trigger.addition, "-": Trigger.removal}[self.take() and self.toks[self.i - 1][0]]
        goal = GoalType.belief
        if self.k in ("!", "?"):
            goal = GoalType.achievement if self.k == "!" else GoalType.test
            self.take()
        head = self.literal()
        context = body = None
        if self.k == ":":
            self.take()
            context = self.expr()
        if self.k == "<-":
            self.take()
            body = self.steps(".")
        self.plans.append((label, trigger, goal, head, context, body))

    def steps(self, close):
        """Up to, not including, the closing token."""
        out = []
        while self.k != close or close == "." and (not out or sep):
            out.append(self.step())
            sep = self.k == ";"
            if sep:
                self.take()
            elif out[-1][0] == "formula" and self.k != close:
                raise Reject()
        return out

    def block(self):
        self.take("{")
        out = self.steps("}")
        self.take("}")
        return out

    def step(self):
        k = self.k
        if k in ("if", "while", "for"):
            self.take()
            self.take("(")
            cond = self.expr()
            self.take(")")
            body = self.block()
            if k != "if":
                return (k, cond, body)
            other = None
            if self.k == "else":
                self.take()
                other = self.block()
            return (k, cond, body, other)
        if k in FT:
            self.take()
            return ("formula", FT[k], self.expr())
        return ("formula", FormulaType.term, self.expr())


def logic(t):
    """A condition whose operators fit their operands and do not fold."""
    k = t[0]
    if k == "lit":
        return term(t)
    if k == "var":
        return True
    if k == "un":
        return t[1] == "not" and t[2][0] != "const" and logic(t[2])
    if k == "bin":
        if t[1] in ("&", "|"):
            return logic(t[2]) and logic(t[3])
        if t[1] in ("<", "<=", ">", ">=", "==", "\\==", "=", "=.."):
            return term(t[2]) and term(t[3]) and not (t[2][0] in CONST and t[3][0] in CONST)
    return False


def term(t):
    k = t[0]
    if k == "var" or k in CONST:
        return True
    if k == "lit":
        return all(term(x) for x in t[2] + t[3])
    if k == "list":
        return all(term(x) for x in t[1])
    if k == "cons":
        return term(t[1]) and term(t[2])
    return arith(t)


def arith(t):
    k = t[0]
    if k in ("var", "num"):
        return True
    if k == "un":
        return t[1] != "not" and t[2][0] != "num" and arith(t[2])
    if k == "bin":
        return t[1] in ("+", "-", "*", "/", "div", "mod", "**") and arith(t[2]) and arith(t[3]) and not (t[2][0] == t[3][0] == "num")
    return False


def pure(t):
    """Without operators."""
    k = t[0]
    if k == "lit":
        return all(pure(x) for x in t[2] + t[3])
    if k == "list":
        return all(pure(x) for x in t[1])
    if k == "cons":
        return pure(t[1]) and pure(t[2])
    return k not in ("bin", "un")


def clean_step(s):
    if s[0] == "formula":
        if s[1] is FormulaType.term:
            return logic(s[2])
        return s[2][0] in ("lit", "var") and term(s[2])
    return logic(s[1]) and all(clean_step(x) for x in s[2]) and (len(s) == 3 or all(clean_step(x) for x in s[3] or ()))


def clean(p):
    """Nothing to complain about beyond the grammar, nothing to fold."""
    return not p.includes and all(pure(h) and logic(b) for h, b in p.rules) and all(pure(b) for b in p.beliefs) and all(term(g) for g in p.goals) and \
        all((l is None or pure(l)) and pure(h) and (c is None or logic(c)) and all(clean_step(s) for s in b or ()) for l, _, _, h, c, b in p.plans)


def eq_steps(sx, body, steps):
    if body is None or len(body.formulas) != len(steps):
        return False
    return sx.And(*[eq_step(sx, n_, s) for n_, s in zip(body.formulas, steps)])


def eq_step(sx, node, s):
    P = agentspeak.parser
    if s[0] == "formula":
        return isinstance(node, P.AstFormula) and node.formula_type is s[1] and eq_tree(sx, node.term, s[2])
    if s[0] == "if":
        if not isinstance(node, P.AstIfThenElse) or (node.else_body is None) != (s[3] is None):
            return False
        return sx.And(eq_tree(sx, node.condition, s[1]), eq_steps(sx, node.if_body, s[2]), s[3] is None or eq_steps(sx, node.else_body, s[3]))
    if s[0] == "while":
        return isinstance(node, P.AstWhile) and sx.And(eq_tree(sx, node.condition, s[1]), eq_steps(sx, node.body, s[2]))
    return isinstance(node, P.AstFor) and sx.And(eq_tree(sx, node.generator, s[1]), eq_steps(sx, node.body, s[2]))


def eq_plan(sx, node, plan):
    label, trigger, goal, head, context, body = plan
    if (node.annotation is None) != (label is None) or node.event.trigger is not trigger or node.event.goal_type is not goal:
        return False
    if (node.context is None) != (context is None) or (node.body is None) != (body is None):
        return False
    return sx.And(label is None or eq_tree(sx, node.annotation, label), eq_tree(sx, node.event.head, head),
                  context is None or eq_tree(sx, node.context, context), body is None or eq_steps(sx, node.body, body))


def compare(sx, text):
    log = agentspeak.Log(logging.getLogger("agentspeak.parser"))
    agent = None
    with Capture():
        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("e.asl", text), log)
        try:
            agent = agentspeak.parser.parse("e.asl", tokens, log)
        except AggregatedError:
            pass
    lines = split_lines(sx, text)
    want, illegal = RefLexer(sx).scan(lines)
    p = RefProgram([(k, lines[n_ - 1][i:j]) for k, n_, i, j in want])
    try:
        p.statements()
        ok = not illegal
    except Reject:
        ok = False
    if not ok or p.includes:
        # the included files do not exist
        sx.check(log.num_errors > 0, "text outside of the grammar is rejected")
        return
    if not clean(p):
        return
    sx.check(agent is not None and log.num_errors == 0, "a program of the grammar is accepted")
    if agent is None:
        return
    sx.check(sx.And(len(agent.rules) == len(p.rules), len(agent.beliefs) == len(p.beliefs), len(agent.goals) == len(p.goals), len(agent.plans) == len(p.plans)),
             "exactly the statements that are written")
    for node, (head, cons) in zip(agent.rules, p.rules):
        sx.check(sx.And(eq_tree(sx, node.head, head), eq_tree(sx, node.consequence, cons)), "exactly the statements that are written")
    for node, b in zip(agent.beliefs, p.beliefs):
        sx.check(eq_tree(sx, node, b), "exactly the statements that are written")
    for node, g in zip(agent.goals, p.goals):
        sx.check(eq_tree(sx, node.atom, g), "exactly the statements that are written")
    for node, plan in zip(agent.plans, p.plans):
        sx.check(eq_plan(sx, node, plan), "each plan with its head, context and steps")


TEMPLATES = {
    "steps": "+!s <- a%b%c.", "end": "+!s <- a%b%", "types": "+!s <-%a;%b.", "type": "+!s <- a%X%b.", "var": "+!s <- %X.",
    "if": "+!s <- if (X) {a%b%}%c.", "else": "+!s <- if (X) {a}%else%{b}%c.", "parens": "+!s <- if%X%{a}.", "while": "+!s <- while(X){%a%}%b.",
    "for": "+!s <- for (p(X)%{a}%b.", "nested": "+!s <- for (X) {if (Y) {a}%b%}%c.", "empty": "+!s <- if (X) {%}%", "two": "+!s <- while (X) {}%if (Y) {}%a.",
    "head": "%s%p <- a.", "context": "+!s%X%a.", "trigger": "%!s%", "label": "@l%+!s%", "plans": "+!s%+p%-q.", "rule": "p%q%r.", "goal": "!a%b.", "top": "p%q%",
    "directive": "{%begin d}p.{%end }%", "inside": "{ begin d }%p%{ end }q.", "broken": "{%end}",
}
PUNCT = "+-!?;.:{}()<-@ ,"
REACH = ["text outside of the grammar is rejected", "a program of the grammar is accepted", "exactly the statements that are written"]
TWO = ("head", "goal", "broken", "var", "rule", "trigger")


@harness("C29", quick=[{"t": t, "w": 1} for t in sorted(TEMPLATES)] + [{"t": t, "w": 2, "wide": 0} for t in TWO],
         thorough=[{"t": t, "w": 2} for t in sorted(TEMPLATES)] + [{"t": t, "w": 3} for t in ("head", "broken", "goal", "rule")], path_s=30, reach=REACH)
def slots(sx, t, w, wide=None):
    """programs with symbolic punctuation"""
    compare(sx, slot_text(sx, t, w, wide))


def slot_text(sx, t, w, wide=None):
    parts = TEMPLATES[t].split("%")
    text = parts[0]
    for i, q in enumerate(parts[1:]):
        text = text + sx.text("s", w if wide in (None, i) else 1, PUNCT) + q
    return text


VOCAB = ["a", "X", ".print(X)", "1", '"s"', "true", "p(X)", "q(1)[a]", "[H|T]", "+", "-", "not", "&", "|", "<", "=",
         "(", ")", "[", "]", "{", "}", ",", ";", ":", ".", "<-", ":-", "!", "!!", "?", "-+", "@", "if", "else", "while", "for", "include", "begin", "end"]
PROGRAMS = dict(BASES)
PROGRAMS["rule"] = "r ( X , f ( Y ) ) :- p ( X ) & not q | X < Y + 1 .".split()
PROGRAMS["goal"] = "! s ( X , 1 ) [ c ] . + ! s ( X ) .".split()
PROGRAMS["arithmetic"] = "! s . + ! s <- X = ( Y - 2 ) * - Z ; .print ( X / 2 ) .".split()
PROGRAMS["while"] = "+ ! s <- while ( p & q ) { - p } .".split()
PROGRAMS["test plan"] = "+ ? t ( X ) : X \\== a <- X = Y mod 2 .".split()
PROGRAMS["wait"] = '+ ! s <- .wait ( "+!e(X)" , 100 ) ; .send ( a , tell , b ) .'.split()
PROGRAMS["blocks"] = "+ ! s <- if ( p ) { a ; } while ( q ) { } for ( r ) { ! b ; ? c } else .".split()


@harness("C29", quick=[{"base": b, "kind": k} for b in sorted(PROGRAMS) for k in ("replace", "insert", "cut")],
         thorough=[{"base": b, "kind": k} for b in sorted(PROGRAMS) for k in ("replace", "insert", "cut", "two")], path_s=30,
         reach=REACH)
def mutated(sx, base, kind):
    """programs with a token replaced, inserted, dropped, repeated or swapped"""
    compare(sx, " ".join(mutated_tokens(sx, base, kind)))


def mutated_tokens(sx, base, kind):
    toks = list(PROGRAMS[base])
    at = sx.choose("at", list(range(len(toks))))
    if kind == "replace":
        toks[at] = sx.choose("token", VOCAB)
    elif kind == "insert":
        toks.insert(at, sx.choose("token", VOCAB))
    elif kind == "two":
        toks[at:at + 2] = [sx.choose("token", VOCAB), sx.choose("token", VOCAB)]
    else:
        k = sx.choose("cut", ["drop", "repeat", "end", "drop2", "swap", "begin"])
        if k == "drop":
            del toks[at]
        elif k == "repeat":
            toks.insert(at, toks[at])
        elif k == "end":
            del toks[at:]
        elif k == "begin":
            del toks[:at]
        elif k == "drop2":
            del toks[at:at + 2]
        else:
            toks[at:at + 2] = toks[at:at + 2][::-1]
    return toks


STEPS = ["a", "p(X)", "!g(X)", "!!g", "?t(X)", "+b(X)", "-b", "-+b(X, Y)", "X < Y", "if (X) {%}", "if (p & q) {%} else {a}", "if (p) {} else {%}", "while (X) {%}", "for (p(X)) {%}"]


@harness("C29", quick=[{"n": 3, "first": i} for i in range(len(STEPS))], thorough=[{"n": 4, "first": i} for i in range(len(STEPS))], path_s=30, reach=REACH + ["each plan with its head, context and steps"])
def bodies(sx, n, first):
    """all kinds of steps after and inside of each other"""
    text, i = STEPS[first], 1
    while i < n:
        inside = "%" in text and sx.flag("inside")
        nxt = sx.choose("step", STEPS)
        sep = sx.choose("sep", ["; ", ""])
        if inside:
            j = text.index("%")
            text = text[:j] + (nxt.replace("%", "") if i < n - 1 or sx.flag("flat") else nxt.replace("%", "a")) + sep + text[j + 1:]
        else:
            text = text.replace("%", "") + sep + nxt
        i += 1
    compare(sx, "+!s <- " + text.replace("%", "") + sx.choose("end", [".", ";.", ""]))


@harness("C29", cases=[{"part": i} for i in range(3)], path_s=30, reach=["a program of the grammar is accepted", "each plan with its head, context and steps"])
def plans(sx, part):
    """all combinations of labels, triggers, heads, contexts and bodies, next to other statements"""
    label = sx.choose("label", ["", "@l ", "@l(1) ", "@l(X)[a, b(Y)] ", "@l[atomic] ", "@.l "])
    trigger = sx.choose("trigger", ["+", "-", "+!", "-!", "+?", "-?"])
    head = sx.choose("head", ["s", "s(X)", "s(X, [Y|Z])[source(A)]", "~s(_)", "s[a]"])
    context = sx.choose("context", ["", " : true", " : p(X) & not q"])
    body = sx.choose("body", ["", " <- true", " <- a; ?b(X); -+c(X)"])
    before = ["", "p(X) :- q(X).\n!g. ", "+!a. "][part]
    after = sx.choose("after", ["", "\np.", " -q <- b.", " @m +q."])
    compare(sx, before + label + trigger + head + context + body + "." + after)
