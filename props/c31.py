"""C31: diagnostics point at the offending text."""

import logging

import agentspeak.lexer
import agentspeak.parser
from agentspeak import AggregatedError, SourceLocation

from symx.api import harness
from .c07 import RefLexer, split_lines
from .c08 import Reject
from .c29 import RefProgram, clean, slot_text, mutated_tokens, TEMPLATES, PROGRAMS
from .prog import *

BOUNDS = {
    "quick": "the program templates of C29 with 1 symbolic character in each slot, the 16 programs of C29 with one token replaced, inserted, dropped, repeated, swapped or cut off on one or several lines; messages of 5 levels whose main and two secondary locations have symbolic columns 0..4 (0..2 with two secondary ones) on one of two lines and files, over source lines with tabs and line ends; sequences of up to 4 messages with limits 1..3",
    "thorough": "slots of 2 characters, columns 0..6 (0..4), sequences of 6 messages"}
OUTSIDE = ["the wording of messages", "colours", "texts whose expressions are refused for their types (C10)"]
ASSUMPTIONS = []


class Located(RefProgram):
    """Also remembers where open directives are."""

    def statements(self, directive=None):
        while self.k is not None:
            at = self.i
            if self.k == "{" and self.i + 1 < len(self.toks) and self.toks[self.i + 1][0] == "begin":
                self.take()
                self.take()
                at = self.i
                self.literal()
                self.take("}")
                self.statements(at)
            elif self.k == "{" and self.i + 1 < len(self.toks) and self.toks[self.i + 1][0] == "end":
                self.take()
                at = self.i
                self.take()
                self.take("}")
                if directive is None:
                    self.i = at
                    raise Reject()
                return
            elif self.k == "{":
                self.take()
                at = self.i
                for k in ("include", "(", "string", ")", "}"):
                    self.take(k)
                # no such file
                self.i = at
                raise Reject()
            elif self.k == "functor":
                head = self.literal()
                if self.k == ":-":
                    self.take()
                    cons = self.expr()
                    self.take(".")
                    self.rules.append((head, cons))
                else:
                    self.take(".")
                    self.beliefs.append(head)
            elif self.k == "!":
                self.take()
                goal = self.literal()
                self.take(".")
                self.goals.append(goal)
            else:
                self.plan()
                if self.k != ".":
                    self.plans.pop()
                self.take(".")
        if directive is not None:
            self.i = directive
            raise Reject()


def position(sx, text):
    log = agentspeak.Log(logging.getLogger("agentspeak.parser"))
    with Capture() as cap:
        tokens = agentspeak.lexer.TokenStream(agentspeak.StringSource("e.asl", text), log)
        try:
            agentspeak.parser.parse("e.asl", tokens, log)
        except AggregatedError:
            pass
    lines = split_lines(sx, text)
    want, illegal = RefLexer(sx).scan(lines)
    p = Located([(k, lines[n_ - 1][i:j]) for k, n_, i, j in want])
    where = None
    try:
        p.statements()
    except Reject:
        _, n_, i, j = want[min(p.i, len(want) - 1)] if want else (0, 0, 0, 0)
        where = (n_, i, j)
        if p.k is None:
            # the text ends too early: what follows the last token was read, too
            where = illegal and (illegal[0][0], illegal[0][1], illegal[0][1]) or where
    if illegal:
        n_, i = illegal[0]
        if where is None or (n_, i) < where[:2]:
            where = (n_, i, i)
    if where is None or not want or not clean(p):
        return
    errs = cap.errors()
    sx.check(len(errs) > 0, "the first error is where the text stops being a program")
    loc = errs[0]
    sx.check(sx.And(loc.filename == "e.asl", loc.lineno == where[0], loc.startcol == where[1], loc.endcol == where[2], sx.same(loc.line, lines[where[0] - 1])),
             "the first error is where the text stops being a program")


@harness("C31", quick=[{"t": t, "w": 1} for t in sorted(TEMPLATES)], thorough=[{"t": t, "w": 2} for t in sorted(TEMPLATES)], path_s=30,
         reach=["the first error is where the text stops being a program"])
def punctuation(sx, t, w):
    """programs with symbolic punctuation"""
    position(sx, sx.choose("before", ["", "p.\n"]) + slot_text(sx, t, w))


@harness("C31", cases=[{"base": b, "kind": k} for b in sorted(PROGRAMS) for k in ("replace", "insert", "cut")], path_s=30,
         reach=["the first error is where the text stops being a program"])
def mutated(sx, base, kind):
    """programs with a token replaced, inserted, dropped, repeated or swapped, over several lines"""
    toks = mutated_tokens(sx, base, kind)
    glue = sx.choose("glue", [" ", "\n", "\t "])
    position(sx, glue.join(toks))


LINES = ["abcd.\n", "\ta\tb", " x  \r\n", "p(1).", ""]
LEVELS = [(logging.CRITICAL, "critical: "), (logging.ERROR, "error: "), (logging.WARNING, "warning: "), (logging.INFO, "info: "), (logging.DEBUG, "debug: ")]


class Plain(object):
    """No colours, but the names of colorama."""

    def __init__(self):
        import colorama
        for group in ("Fore", "Style"):
            setattr(self, group, type(group, (), {k: "" for k in dir(getattr(colorama, group)) if k.isupper()}))


def span(sx, name, R):
    a_, b = sx.num(name + "start", 0, R), sx.num(name + "end", 0, R)
    sx.assume(sx.le(a_, b))
    return a_, b


def number(sx, x, top):
    return [k for k in range(top + 1) if sx.truth(sx.eq(x, k))][0]


def under(sx, k, loc):
    return sx.truth(sx.And(sx.le(loc.startcol, k), sx.Or(sx.lt(k, loc.endcol), sx.eq(k, loc.startcol))))


@harness("C31", quick=[{"line": i, "extras": e, "R": 4 - e} for i in range(len(LINES)) for e in (0, 1, 2)], thorough=[{"line": i, "extras": e, "R": 6 - e} for i in range(len(LINES)) for e in (0, 1, 2)], path_s=30,
         reach=["possible: the marks are exactly under the locations", "place, level and message"])
def excerpt(sx, line, extras, R):
    """the excerpt of the source with its marks"""
    text = LINES[line]
    level, name = sx.choose("level", LEVELS) if not extras else LEVELS[1]
    a_, b = span(sx, "", R)
    lineno = sx.num("lineno", 2, 3) if not extras else 2
    loc = SourceLocation("f.asl", lineno, a_, b, text)
    extra, same = [], []
    for i in range(extras):
        kind = sx.choose("extra", ["none", "same", "line", "earlier", "file"] if extras == 1 else ["same"])
        if kind == "none":
            extra.append(None)
            continue
        c, d = span(sx, "x%d" % i, R)
        extra.append(SourceLocation("g.asl" if kind == "file" else "f.asl", 7 if kind == "line" else 1 if kind == "earlier" else lineno, c, d, text))
        if kind == "same":
            same.append(extra[-1])
    rec = logging.LogRecord("agentspeak", level, "", 0, "what %s", ("happened",), None)
    rec.loc, rec.extra_locs = loc, extra
    rec.message = rec.getMessage()
    saved = agentspeak.colorama
    agentspeak.colorama = Plain()
    try:
        out = agentspeak.LogFormatter().formatMessage(rec)
    finally:
        agentspeak.colorama = saved
    want = "f.asl:%d:%d: " % (number(sx, lineno, 3), number(sx, a_, R) + 1) + name + "what happened"
    sx.check(sx.same(out[:len(want)], want), "place, level and message")
    if not text:
        sx.check(len(out) == len(want), "place, level and message")
        return
    marks = ""
    for k, ch in enumerate(text):
        marks += "^" if under(sx, k, loc) else "~" if any(under(sx, k, e) for e in same) else "\t" if ch == "\t" else " "
    sx.check(sx.same(out, want + "\n" + text.rstrip() + "\n" + marks.rstrip()), "possible: the marks are exactly under the locations")


@harness("C31", quick=[{"n": 4}], thorough=[{"n": 6}], path_s=30, reach=["the summary counts what was reported", "possible: stopped at the limit"])
def counts(sx, n):
    """errors and warnings are counted, and reading stops at the limit"""
    limit = sx.choose("limit", [None, 1, 2, 3])
    log = agentspeak.Log(logging.getLogger("agentspeak.parser"), limit)
    errors = warns = 0
    stopped = None
    with Capture() as cap:
        at = []
        for i in range(n):
            kind = sx.choose("kind", ["error", "warning", "info", "exception"])
            if kind != "info":
                at.append(i + 1)
            loc = SourceLocation("f.asl", i + 1, 0, 1, "x")
            errors += kind in ("error", "exception")
            warns += kind == "warning"
            try:
                r = getattr(log, kind)("m %d", i, loc=loc)
            except AggregatedError as e:
                stopped = e
                sx.check(limit is not None and errors == limit, "reading stops at the limit")
                sx.check(True, "possible: stopped at the limit")
                break
            sx.check(limit is None or errors < limit or kind not in ("error", "exception"), "reading stops at the limit")
            if kind in ("error", "exception"):
                sx.check(isinstance(r, AggregatedError) and r.num_errors == errors and r.num_warnings == warns, "the summary counts what was reported")
        sx.check(len(cap.errors()) == errors and [1 for l, _ in cap.records if l == "WARNING"] == [1] * warns, "every message is reported")
        sx.check([l.lineno for k, l in cap.records if k in ("ERROR", "WARNING")] == at, "every message is reported")
        try:
            log.throw()
            final = None
        except AggregatedError as e:
            final = e
    sx.check((final is None) == (errors == 0), "the summary counts what was reported")
    for e in (final, stopped):
        if e is not None:
            sx.check(e.num_errors == errors and e.num_warnings == warns, "the summary counts what was reported")
            sx.check(str(e) == "%d error%s and %d warning%s" % (errors, "" if errors == 1 else "s", warns, "" if warns == 1 else "s"), "the summary counts what was reported")
