"""The harness API, in a symbolic and a concrete (replay) version."""

import collections
import fractions
import signal

import os as _os
_CONCRETE = bool(_os.environ.get("SYMX_CONCRETE"))
if not _CONCRETE:
    import z3
    from . import core
    from .core import PathEnd, PathBudget, Inconclusive
    from .values import SymNum, SymStr, numeral, lift, SxSet, SxFrozenSet, is_num, sx_hash
    from .text import SymText, ranges_expr, _mask

HARNESSES = collections.OrderedDict()


class Harness(object):
    def __init__(self, prop, name, fn, cases, tiers, doc, path_s, expect_reach):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.cases = cases
        self.tiers = tiers
        self.doc = doc
        self.path_s = path_s
        self.expect_reach = expect_reach


def harness(prop, name=None, cases=None, quick=None, thorough=None, path_s=20, reach=None):
    """Registers a harness.  cases / quick / thorough: lists of keyword dicts."""
    def deco(fn):
        n = "%s.%s" % (prop, name or fn.__name__)
        q = quick if quick is not None else (cases if cases is not None else [{}])
        t = thorough if thorough is not None else q
        HARNESSES[n] = Harness(prop, n, fn, {"quick": q, "thorough": t}, None,
                               (fn.__doc__ or "").strip(), path_s, reach)
        return fn
    return deco


class Failure(Exception):
    pass


class ReplayStop(BaseException):
    pass


# -- normal form of terms ---------------------------------------------------------------

def norm(v, vars=None):
    """A structure of tuples describing a term, without using its own __eq__."""
    import agentspeak
    if vars is None:
        vars = {}
    t = type(v)
    if not _CONCRETE and t is SymNum:
        return ("num", v.kind, v)
    if not _CONCRETE and t in (SymStr, SymText):
        return ("str", v)
    if v is True or v is False:
        return ("bool", v)
    if v is None:
        return ("none",)
    if isinstance(v, int):
        return ("num", "int", v)
    if isinstance(v, float):
        return ("num", "float", v)
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, bytes):
        return ("str", v.decode("latin-1"))
    if isinstance(v, (tuple, list)):
        return ("list", tuple(norm(x, vars) for x in v))
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(norm(x, vars) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple((norm(k, vars), norm(x, vars)) for k, x in v.items()))
    if isinstance(v, agentspeak.Wildcard):
        return ("wild",)
    if isinstance(v, agentspeak.Var):
        return ("var", vars.setdefault(id(v), len(vars)))
    if isinstance(v, agentspeak.Literal):
        return ("lit", norm(v.functor, vars), tuple(norm(x, vars) for x in v.args),
                ("set", tuple(norm(x, vars) for x in v.annots)))
    if isinstance(v, agentspeak.LinkedList):
        return ("ll", norm(v.head, vars), norm(v.tail, vars))
    if isinstance(v, agentspeak.UnaryExpr):
        return ("un", v.unary_op.lexeme, norm(v.operand, vars))
    if isinstance(v, agentspeak.BinaryExpr):
        return ("bin", v.binary_op.lexeme, norm(v.left, vars), norm(v.right, vars))
    if isinstance(v, BaseException):
        return ("exc", t.__name__)
    return ("obj", t.__name__)


def flat_ll(n):
    """Flattens linked-list normal forms with a proper tuple tail."""
    if isinstance(n, tuple) and n and n[0] == "ll":
        h, t = flat_ll(n[1]), flat_ll(n[2])
        if t[0] == "list":
            return ("list", (h,) + t[1])
        return ("ll", h, t)
    if isinstance(n, tuple):
        return tuple(flat_ll(x) if isinstance(x, tuple) else x for x in n)
    return n


class Base(object):
    """Formula helpers common to both versions."""

    def same(self, a, b, kinds=False):
        """Formula: the two values are structurally the same term."""
        return self.same_n(norm(a), norm(b), kinds)

    def same_n(self, a, b, kinds=False):
        if a[0] != b[0]:
            return False
        k = a[0]
        if k == "num":
            if kinds and a[1] != b[1]:
                return False
            return self.eq(a[2], b[2])
        if k == "str":
            return self.eq(a[1], b[1])
        if k == "list":
            if len(a[1]) != len(b[1]):
                return False
            return self.And(*[self.same_n(x, y, kinds) for x, y in zip(a[1], b[1])])
        if k == "lit":
            if len(a[2]) != len(b[2]):
                return False
            return self.And(self.same_n(a[1], b[1]),
                            *([self.same_n(x, y, kinds) for x, y in zip(a[2], b[2])] +
                              [self.same_n(a[3], b[3], kinds)]))
        if k == "set":
            return self.And(*(
                [self.Or(*[self.same_n(x, y, kinds) for y in b[1]]) for x in a[1]] +
                [self.Or(*[self.same_n(x, y, kinds) for x in a[1]]) for y in b[1]]))
        if k in ("ll",):
            return self.And(self.same_n(a[1], b[1], kinds), self.same_n(a[2], b[2], kinds))
        if k == "un":
            return self.And(a[1] == b[1], self.same_n(a[2], b[2], kinds))
        if k == "bin":
            return self.And(a[1] == b[1], self.same_n(a[2], b[2], kinds),
                            self.same_n(a[3], b[3], kinds))
        return a == b

    def multiset(self, xs, ys, kinds=False):
        """Formula: xs and ys are the same multiset of terms (small sizes)."""
        xs = [norm(x) for x in xs]
        ys = [norm(y) for y in ys]
        if len(xs) != len(ys):
            return False
        # each element occurs equally often on both sides
        conds = []
        for x in xs:
            a = [self.same_n(x, z, kinds) for z in xs]
            b = [self.same_n(x, z, kinds) for z in ys]
            conds.append(self.count_eq(a, b))
        return self.And(*conds)

    def sub_multiset_count(self, xs):
        return len(xs)

    def Implies(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.Or(self.And(a, b), self.And(self.Not(a), self.Not(b)))

    def numeral(self, x):
        raise NotImplementedError


class SymSx(Base):
    symbolic = True

    def __init__(self, ex, known):
        self.ex = ex
        self.names = {}
        self.known = known
        self.violations = []
        self.reached = {}

    def _name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return "%s.%d" % (name, k)

    def _reg(self, name, kind, e, extra=None):
        self.ex.vars[name] = (kind, e, extra)

    def num(self, name, lo, hi, kind="int", den=1):
        name = self._name(name)
        v = z3.Int(name)
        self._reg(name, "num", v, (kind, den))
        if den == 1:
            self.ex.constrain(z3.And(v >= lo, v <= hi))
            return SymNum(v, kind)
        self.ex.constrain(z3.And(v >= lo * den, v <= hi * den))
        return SymNum(z3.ToReal(v) / den, "float")

    def flag(self, name):
        return self.choose(name, [False, True])

    def choose(self, name, options):
        options = list(options)
        name = self._name(name)
        d, v = self.ex.pick(len(options), name)
        self._reg(name, "idx", v)
        return options[d]

    def pool(self, name, strings):
        strings = tuple(strings)
        name = self._name(name)
        v = z3.Int(name)
        self._reg(name, "pool", v, strings)
        self.ex.constrain(z3.And(v >= 0, v < len(strings)))
        return SymStr(strings, v)

    def text(self, name, n, alphabet=None, maxcp=None, exclude=()):
        """n symbolic characters, from the characters of `alphabet` or all code
        points up to maxcp, minus those in exclude."""
        name = self._name(name)
        cs = []
        for i in range(n):
            v = z3.Int("%s[%d]" % (name, i))
            self._reg("%s[%d]" % (name, i), "chr", v)
            if alphabet is not None:
                rs = [(ord(c), ord(c)) for c in sorted(alphabet)]
                limit = max(map(ord, alphabet))
                mask = _mask(rs, limit)
                self.ex.stubs[("dom", v.get_id())] = (mask, limit)
                from .text import mask_expr
                self.ex.constrain(mask_expr(v, mask))
            else:
                top = maxcp if maxcp is not None else 0x10ffff
                self.ex.constrain(z3.And(v >= 0, v <= top))
                if exclude:
                    self.ex.constrain(z3.Not(ranges_expr(v, exclude)))
                self.ex.stubs[("max", v.get_id())] = top
            cs.append(v)
        if not cs:
            return ""
        return SymText(cs)

    def str(self, x):
        """str() of an object of the library (whose text may be symbolic)."""
        from .hooks import h_str
        return h_str(x)

    def char_in(self, ch, ranges):
        """Is the one-character text within the code point ranges?"""
        if type(ch) is SymText:
            from .text import test
            return test(ch.c[0], ranges)
        return any(a <= ord(ch) <= b for a, b in ranges)

    def numeral(self, x):
        return numeral(x)

    # formulas
    def _b(self, x):
        return z3.BoolVal(x) if isinstance(x, bool) else x

    def eq(self, a, b):
        if type(a) in (SymStr, SymText):
            if type(a) is SymStr and type(b) is SymText:
                a, b = b, a
            return a.eq_expr(b) if isinstance(b, (str, bytes)) else False
        if type(b) in (SymStr, SymText):
            return self.eq(b, a)
        if is_num(a) and is_num(b):
            if isinstance(a, bool) or isinstance(b, bool):
                return a is b
            x, y = lift(a), lift(b)
            if x is None or y is None:
                return a == b
            if x.is_real() != y.is_real():
                x = x if x.is_real() else z3.ToReal(x)
                y = y if y.is_real() else z3.ToReal(y)
            return x == y
        if is_num(a) or is_num(b):
            return False
        return a == b

    def _rel(self, a, b, op):
        x, y = lift(a), lift(b)
        if x.is_real() != y.is_real():
            x = x if x.is_real() else z3.ToReal(x)
            y = y if y.is_real() else z3.ToReal(y)
        return op(x, y)

    def lt(self, a, b):
        return self._rel(a, b, lambda x, y: x < y)

    def le(self, a, b):
        return self._rel(a, b, lambda x, y: x <= y)

    def And(self, *xs):
        if any(x is False for x in xs):
            return False
        xs = [x for x in xs if x is not True]
        if not xs:
            return True
        return z3.And([self._b(x) for x in xs])

    def Or(self, *xs):
        if any(x is True for x in xs):
            return True
        xs = [x for x in xs if x is not False]
        if not xs:
            return False
        return z3.Or([self._b(x) for x in xs])

    def Not(self, x):
        return (not x) if isinstance(x, bool) else z3.Not(x)

    def If(self, c, a, b):
        """Conditional number."""
        if isinstance(c, bool):
            return a if c else b
        x, y = lift(a), lift(b)
        if x.is_real() != y.is_real():
            x = x if x.is_real() else z3.ToReal(x)
            y = y if y.is_real() else z3.ToReal(y)
        return SymNum(z3.If(c, x, y), "float" if "float" in (_kind(a), _kind(b)) else "int")

    def count(self, conds):
        return SymNum(z3.Sum([z3.IntVal(0)] + [z3.If(self._b(c), 1, 0) for c in conds]), "int")

    def count_eq(self, a, b):
        return self.eq(self.count(a), self.count(b))

    def truth(self, cond):
        """Forks on a formula."""
        return self.ex.branch(cond) if not isinstance(cond, bool) else cond

    def assume(self, cond):
        self.ex.assume(cond)

    def check(self, cond, label="assert", known=None):
        self.reached[label] = self.reached.get(label, 0) + 1
        m = self.ex.prove(cond)
        if m is not None:
            self.violations.append((label, m, known))
            raise PathEnd("violation")

    def fail(self, label, known=None):
        self.check(False, label, known)

    def observe(self, label, v):
        self.ex.obs.append((label, norm(v)))

    def same_hash(self, a, b):
        """The hash values are equal (compared structurally)."""
        return sx_hash(a) == sx_hash(b)

    def budget(self, seconds):
        pass


def _kind(v):
    if type(v).__name__ == "SymNum":
        return v.kind
    return "float" if isinstance(v, float) else "int"


class ConcSx(Base):
    symbolic = False

    def __init__(self, values):
        self.values = values
        self.names = {}
        self.failures = []
        self.obs = []
        self.nchecks = 0

    def _name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return "%s.%d" % (name, k)

    def _val(self, name, default=0):
        return self.values.get(name, default)

    def num(self, name, lo, hi, kind="int", den=1):
        name = self._name(name)
        v = self._val(name, lo * den)
        if den == 1:
            return int(v) if kind == "int" else float(v)
        return v / den

    def flag(self, name):
        return self.choose(name, [False, True])

    def choose(self, name, options):
        options = list(options)
        return options[self._val(self._name(name))]

    def pool(self, name, strings):
        return tuple(strings)[self._val(self._name(name))]

    def text(self, name, n, alphabet=None, maxcp=None, exclude=()):
        name = self._name(name)
        d = ord(sorted(alphabet)[0]) if alphabet else 97
        return "".join(chr(self._val("%s[%d]" % (name, i), d)) for i in range(n))

    def str(self, x):
        return str(x)

    def char_in(self, ch, ranges):
        return any(a <= ord(ch) <= b for a, b in ranges)

    def numeral(self, x):
        if isinstance(x, float) and x.is_integer():
            return str(int(x))
        return repr(x)

    def eq(self, a, b):
        if isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, bytes):
            a = a.decode("latin-1")
        if isinstance(b, bytes):
            b = b.decode("latin-1")
        return a == b

    def lt(self, a, b):
        return a < b

    def le(self, a, b):
        return a <= b

    def And(self, *xs):
        return all(xs)

    def Or(self, *xs):
        return any(xs)

    def Not(self, x):
        return not x

    def If(self, c, a, b):
        return a if c else b

    def count(self, conds):
        return sum(1 for c in conds if c)

    def count_eq(self, a, b):
        return self.count(a) == self.count(b)

    def truth(self, cond):
        return bool(cond)

    def same_hash(self, a, b):
        return hash(a) == hash(b)

    def assume(self, cond):
        if not cond:
            raise ReplayStop("assume")

    def check(self, cond, label="assert", known=None):
        self.nchecks += 1
        if not cond:
            self.failures.append((label, known))
            raise ReplayStop("violation")

    def fail(self, label, known=None):
        self.check(False, label, known)

    def observe(self, label, v):
        self.obs.append((label, norm(v)))

    def budget(self, seconds):
        pass
