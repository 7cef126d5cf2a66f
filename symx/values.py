"""Symbolic proxy values: numbers, pool strings, sets, hashes."""

import copy
import numbers
import operator

import z3

from . import core
from .core import ctx

_int = int
_float = float
_str = str
_hash = hash
_set = set
_frozenset = frozenset


def lift(v):
    """z3 arithmetic expression for a number (or None)."""
    if type(v) is SymNum:
        return v.e
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if type(v) is int:
        return z3.IntVal(v)
    if type(v) is float:
        if v != v or v in (float("inf"), float("-inf")):
            return None
        if v.is_integer():
            return z3.IntVal(_int(v))
        n, d = v.as_integer_ratio()
        return z3.RealVal("%d/%d" % (n, d))
    return None


def is_num(v):
    return type(v) is SymNum or isinstance(v, (int, float))


def _kind(v):
    if type(v) is SymNum:
        return v.kind
    return "float" if isinstance(v, float) else "int"


def _mk(e, kind):
    e = z3.simplify(e)
    return SymNum(e, kind)


def _real(e):
    return e if e.is_real() else z3.ToReal(e)


def _pair(a, b):
    if a.is_real() or b.is_real():
        return _real(a), _real(b)
    return a, b


def _floordiv(a, b):
    if a.is_real() or b.is_real():
        return z3.ToInt(_real(a) / _real(b))
    # z3 integer division has a non-negative remainder; Python floors.
    return z3.If(b > 0, a / b, (-a) / (-b))


NATIVE_NUM_HASH = 0x5A5A


class SymNum(object):
    """A symbolic Python number.  kind is the Python type ('int' or 'float');
    e is an exact Int or Real term (see the exactness bounds in DESIGN.md)."""

    __slots__ = ("e", "kind", "__weakref__")

    def __init__(self, e, kind):
        self.e = e
        self.kind = kind

    @property
    def __class__(self):
        return _int if self.kind == "int" else _float

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce_ex__(self, proto):
        raise TypeError("symbolic number is not picklable")

    # comparisons
    def _cmp(self, other, op):
        if type(other) is float and other in (float("inf"), float("-inf")):
            return op(0.0, other)
        o = lift(other)
        if o is None:
            return NotImplemented
        a, b = _pair(self.e, o)
        return ctx().branch(op(a, b))

    def __eq__(self, other):
        r = self._cmp(other, operator.eq)
        return r

    def __ne__(self, other):
        r = self._cmp(other, operator.eq)
        return r if r is NotImplemented else not r

    def __lt__(self, other):
        return self._cmp(other, operator.lt)

    def __le__(self, other):
        return self._cmp(other, operator.le)

    def __gt__(self, other):
        return self._cmp(other, operator.gt)

    def __ge__(self, other):
        return self._cmp(other, operator.ge)

    def __hash__(self):
        return NATIVE_NUM_HASH

    def __bool__(self):
        return not ctx().branch(self.e == 0)

    # arithmetic
    def _bin(self, other, f, swap=False):
        o = lift(other)
        if o is None:
            return NotImplemented
        a, b = _pair(self.e, o)
        kind = "float" if "float" in (self.kind, _kind(other)) else "int"
        return _mk(f(b, a) if swap else f(a, b), kind)

    def __add__(self, o):
        return self._bin(o, operator.add)

    def __radd__(self, o):
        return self._bin(o, operator.add, True)

    def __sub__(self, o):
        return self._bin(o, operator.sub)

    def __rsub__(self, o):
        return self._bin(o, operator.sub, True)

    def __mul__(self, o):
        if lift(o) is None:
            if isinstance(o, (str, tuple, list)):
                return o * self.__index__()
            return NotImplemented
        return self._bin(o, operator.mul)

    def __rmul__(self, o):
        return self.__mul__(o)

    def _div(self, a, b, other, what):
        if ctx().branch(b == 0):
            raise ZeroDivisionError(
                "division by zero" if what == "/" else "integer division or modulo by zero")
        kind = "float" if "float" in (self.kind, _kind(other)) else "int"
        if what == "/":
            return _mk(_real(a) / _real(b), "float")
        if what == "//":
            return _mk(_floordiv(a, b), kind)
        a2, b2 = _pair(a, b)
        q = _floordiv(a2, b2)
        if a2.is_real():
            q = z3.ToReal(q)
        return _mk(a2 - b2 * q, kind)

    def _divop(self, other, what, swap=False):
        o = lift(other)
        if o is None:
            return NotImplemented
        return self._div(o, self.e, other, what) if swap else self._div(self.e, o, other, what)

    def __truediv__(self, o):
        return self._divop(o, "/")

    def __rtruediv__(self, o):
        return self._divop(o, "/", True)

    def __floordiv__(self, o):
        return self._divop(o, "//")

    def __rfloordiv__(self, o):
        return self._divop(o, "//", True)

    def __mod__(self, o):
        return self._divop(o, "%")

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._divop(o, "%", True)

    def __divmod__(self, o):
        return self // o, self % o

    def _pow(self, base, ex):
        kind = "float" if "float" in (_kind(base), _kind(ex)) else "int"
        ev = lift(ex)
        if ev.is_real():
            ev = z3.simplify(ev)
            c = core._const(ev)
            if c is None or c.denominator != 1:
                raise core.Inconclusive("non-integer exponent")
            n = _int(c)
        else:
            n = ctx().realize(ev)
        be = lift(base)
        if n < 0:
            if ctx().branch(be == 0):
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            kind = "float"
        r = z3.IntVal(1)
        for _ in range(abs(n)):
            a, b = _pair(r, be)
            r = a * b
        if n < 0:
            r = z3.RealVal(1) / _real(r)
        return _mk(r, kind)

    def __pow__(self, o, mod=None):
        if lift(o) is None:
            return NotImplemented
        return self._pow(self, o)

    def __rpow__(self, o):
        if lift(o) is None:
            return NotImplemented
        return self._pow(o, self)

    def __neg__(self):
        return _mk(-self.e, self.kind)

    def __pos__(self):
        return SymNum(self.e, self.kind)

    def __abs__(self):
        return _mk(z3.If(self.e < 0, -self.e, self.e), self.kind)

    # conversions
    def is_integer(self):
        if not self.e.is_real():
            return True
        return ctx().branch(z3.IsInt(self.e))

    def _floor(self):
        return self.e if not self.e.is_real() else z3.ToInt(self.e)

    def __floor__(self):
        return _mk(self._floor(), "int")

    def __ceil__(self):
        if not self.e.is_real():
            return _mk(self.e, "int")
        return _mk(-z3.ToInt(-self.e), "int")

    def __trunc__(self):
        if not self.e.is_real():
            return _mk(self.e, "int")
        return _mk(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)), "int")

    def __round__(self, ndigits=None):
        if ndigits is not None:
            raise core.Inconclusive("round with digits")
        if not self.e.is_real():
            return _mk(self.e, "int")
        fl = z3.ToInt(self.e)
        fr = self.e - z3.ToReal(fl)
        half = z3.RealVal("1/2")
        return _mk(z3.If(fr < half, fl,
                         z3.If(fr > half, fl + 1,
                               z3.If(fl % 2 == 0, fl, fl + 1))), "int")

    def __index__(self):
        if self.kind != "int":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return _int(ctx().realize(self.e))

    def __int__(self):
        t = self.__trunc__()
        return _int(ctx().realize(t.e))

    def __float__(self):
        c = core._const(z3.simplify(self.e))
        if c is None:
            if self.e.is_real():
                raise core.Inconclusive("float() of a symbolic real")
            c = ctx().realize(self.e)
        return _float(c)

    def as_kind(self, kind):
        return SymNum(self.e, kind)

    def __str__(self):
        return numeral(self)

    __repr__ = __str__

    def __format__(self, spec):
        if spec in ("", "s"):
            return numeral(self)
        return format(_int(self) if self.kind == "int" else _float(self), spec)

    def __getattr__(self, name):
        # A method of int/float this proxy does not model: fall back to a value.
        if name.startswith("__") or not hasattr(_int if self.kind == "int" else _float, name):
            raise AttributeError(name)
        v = _int(self) if self.kind == "int" else _float(self)
        return getattr(v, name)


numbers.Number.register(SymNum)

MAGIC_BASE = 900000000000


def numeral(x):
    """Text standing for a symbolic number; float()/int() of the text gives the
    symbolic number back.  Negative numbers get a leading minus sign, values
    that Python prints as floats a '.0' suffix."""
    c = ctx()
    if not isinstance(x, SymNum) and type(x) is not SymNum:
        return _str(x)
    cv = core._const(z3.simplify(x.e))
    if cv is not None:
        return _str(_int(cv)) if x.kind == "int" else repr(_float(cv))
    neg = c.branch(x.e < 0)
    e = z3.simplify(-x.e if neg else x.e)
    key = (e.get_id(), x.kind)
    m = c.magic.get(key)
    if m is None:
        n = MAGIC_BASE + len(c.magic)
        m = c.magic[key] = n
        c.keep.append(e)  # ids stay valid only while the term is referenced
        c.magic[n] = SymNum(e, x.kind)
    s = "%d" % m
    if x.kind == "float":
        s += ".0"
    return "-" + s if neg else s


def parse_magic(text, kind):
    """The symbolic number denoted by a magic numeral, or None."""
    if core.CTX is None:
        return None
    t = text.strip()
    neg = False
    if t[:1] in "+-":
        neg = t[:1] == "-"
        t = t[1:]
    if t.endswith(".0"):
        t = t[:-2]
    if len(t) != 12 or not t.isdigit():
        return None
    v = core.CTX.magic.get(_int(t))
    if v is None:
        return None
    r = SymNum(v.e, kind)
    return -r if neg else r


# -- strings from a finite pool ------------------------------------------------

class SymStr(object):
    """A string chosen symbolically from a pool of distinct strings."""

    __slots__ = ("pool", "e", "__weakref__")

    def __init__(self, pool, e):
        self.pool = pool
        self.e = e

    @property
    def __class__(self):
        return _str

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def eq_expr(self, other):
        if type(other) is SymStr:
            if other.pool is self.pool or other.pool == self.pool:
                return self.e == other.e
            return z3.Or([z3.And(self.e == i, other.e == other.pool.index(s))
                          for i, s in enumerate(self.pool) if s in other.pool] or [False])
        if isinstance(other, str):
            if type(other) is not _str:
                other = _str(other)
            if other in self.pool:
                return self.e == self.pool.index(other)
            return z3.BoolVal(False)
        return None

    def __eq__(self, other):
        if not isinstance(other, str):
            return NotImplemented
        return ctx().branch(self.eq_expr(other))

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else not r

    def _rel(self, other, op):
        if not isinstance(other, str):
            return NotImplemented
        if type(other) is SymStr:
            conds = [z3.And(self.e == i, other.e == j)
                     for i, s in enumerate(self.pool)
                     for j, t in enumerate(other.pool) if op(s, t)]
        else:
            conds = [self.e == i for i, s in enumerate(self.pool) if op(s, _str(other))]
        return ctx().branch(z3.Or(conds or [z3.BoolVal(False)]))

    def __lt__(self, o):
        return self._rel(o, operator.lt)

    def __le__(self, o):
        return self._rel(o, operator.le)

    def __gt__(self, o):
        return self._rel(o, operator.gt)

    def __ge__(self, o):
        return self._rel(o, operator.ge)

    def real(self):
        return self.pool[ctx().realize(self.e)]

    def __hash__(self):
        return _hash(self.real())

    def __str__(self):
        return self.real()

    def __repr__(self):
        return repr(self.real())

    def __format__(self, spec):
        return format(self.real(), spec)

    def __len__(self):
        return len(self.real())

    def __bool__(self):
        return bool(self.real())

    def __iter__(self):
        return iter(self.real())

    def __contains__(self, x):
        return (x.real() if type(x) is SymStr else x) in self.real()

    def __getitem__(self, i):
        return self.real()[i]

    def __add__(self, o):
        return self.real() + (o.real() if type(o) is SymStr else o)

    def __radd__(self, o):
        return o + self.real()

    def __mod__(self, o):
        return self.real() % o

    def __mul__(self, o):
        return self.real() * o

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(_str, name):
            raise AttributeError(name)
        return getattr(self.real(), name)


# -- hashes ------------------------------------------------------------------------

class HK(_int):
    """A structural hash value: equal structures hash equal; different
    structures are treated as (very likely) different."""

    def __new__(cls, struct):
        self = _int.__new__(cls, 0)
        self.struct = struct
        return self

    def __eq__(self, other):
        if isinstance(other, HK):
            return hk_eq(self.struct, other.struct)
        return False

    def __ne__(self, other):
        return not self.__eq__(other)

    def __hash__(self):
        return 0

    def __deepcopy__(self, memo):
        return self


def hk_of(x):
    """Structural hash key of a value."""
    if isinstance(x, HK):
        return x.struct
    if type(x) is SymNum:
        return ("n", x)
    if isinstance(x, (bool, int, float)) :
        return ("n", x)
    if type(x) is SymStr or type(x) is _str:
        return ("s", x)
    if isinstance(x, tuple):
        return ("t", tuple(hk_of(y) for y in x))
    if isinstance(x, frozenset):
        return ("fs", [hk_of(y) for y in x])
    if x is None:
        return ("o", None)
    f = getattr(type(x), "__hash__", None)
    if f is None:
        raise TypeError("unhashable type: '%s'" % type(x).__name__)
    h = f(x)
    if isinstance(h, HK):
        return h.struct
    if f is object.__hash__:
        return ("o", _id(x))
    return ("i", _int(h))


def _id(x):
    return id(x)


def hk_eq(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == "t":
        return len(a[1]) == len(b[1]) and all(hk_eq(x, y) for x, y in zip(a[1], b[1]))
    if a[0] == "fs":
        if len(a[1]) != len(b[1]):
            return False
        rest = list(b[1])
        for x in a[1]:
            for i, y in enumerate(rest):
                if hk_eq(x, y):
                    del rest[i]
                    break
            else:
                return False
        return True
    return bool(a[1] == b[1])


def sx_hash(x):
    return HK(hk_of(x))


# -- sets -----------------------------------------------------------------------------

def _same(a, b):
    return a is b or bool(a == b)


class SxBaseSet(object):
    """List-backed set: membership by (possibly symbolic) equality, so hashes are
    never needed; iteration is in insertion order and detects size changes."""

    __slots__ = ("_l", "__weakref__")

    def __init__(self, it=()):
        self._l = []
        for x in it:
            self._ins(x)

    def _ins(self, x):
        if type(x) not in (SymNum, SymStr):
            _check_hashable(x)
        for y in self._l:
            if _same(x, y):
                return False
        self._l.append(x)
        return True

    def __iter__(self):
        n = len(self._l)
        i = 0
        while True:
            if len(self._l) != n:
                raise RuntimeError("Set changed size during iteration")
            if i >= n:
                return
            x = self._l[i]
            i += 1
            yield x

    def __len__(self):
        return len(self._l)

    def __bool__(self):
        return bool(self._l)

    def __contains__(self, x):
        return any(_same(x, y) for y in self._l)

    def _items(self, o):
        return list(o)

    def __eq__(self, o):
        if not isinstance(o, (_set, _frozenset)):
            return NotImplemented
        o = list(o)
        if len(o) != len(self._l):
            return False
        return all(any(_same(x, y) for y in o) for x in self._l)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def issubset(self, o):
        o = list(o)
        return all(any(_same(x, y) for y in o) for x in self._l)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __le__(self, o):
        return self.issubset(o) if isinstance(o, (_set, _frozenset)) else NotImplemented

    def __ge__(self, o):
        return self.issuperset(o) if isinstance(o, (_set, _frozenset)) else NotImplemented

    def __lt__(self, o):
        if not isinstance(o, (_set, _frozenset)):
            return NotImplemented
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        if not isinstance(o, (_set, _frozenset)):
            return NotImplemented
        return len(self) > len(o) and self.issuperset(o)

    def union(self, *os):
        r = type(self)(self._l)
        for o in os:
            for x in o:
                r._ins(x)
        return r

    def __or__(self, o):
        return self.union(o) if isinstance(o, (_set, _frozenset)) else NotImplemented

    __ror__ = __or__

    def intersection(self, *os):
        r = list(self._l)
        for o in os:
            o = list(o)
            r = [x for x in r if any(_same(x, y) for y in o)]
        return type(self)(r)

    def __and__(self, o):
        return self.intersection(o) if isinstance(o, (_set, _frozenset)) else NotImplemented

    __rand__ = __and__

    def difference(self, *os):
        r = list(self._l)
        for o in os:
            o = list(o)
            r = [x for x in r if not any(_same(x, y) for y in o)]
        return type(self)(r)

    def __sub__(self, o):
        return self.difference(o) if isinstance(o, (_set, _frozenset)) else NotImplemented

    def __rsub__(self, o):
        return type(self)(x for x in o if x not in self)

    def copy(self):
        return type(self)(self._l)

    __copy__ = copy

    def __deepcopy__(self, memo):
        r = type(self)()
        memo[id(self)] = r
        r._l = [copy.deepcopy(x, memo) for x in self._l]
        return r

    def __repr__(self):
        return "{%s}" % ", ".join(repr(x) for x in self._l)


def _check_hashable(x):
    if isinstance(x, (list, dict)):
        raise TypeError("unhashable type: '%s'" % type(x).__name__)
    if isinstance(x, tuple):
        for y in x:
            _check_hashable(y)
    if type(x) is SxSet:
        raise TypeError("unhashable type: 'set'")


class SxSet(SxBaseSet):
    __slots__ = ()
    __hash__ = None

    @property
    def __class__(self):
        return _set

    def add(self, x):
        self._ins(x)

    def update(self, *os):
        for o in os:
            for x in list(o):
                self._ins(x)

    def __ior__(self, o):
        self.update(o)
        return self

    def discard(self, x):
        for i, y in enumerate(self._l):
            if _same(x, y):
                del self._l[i]
                return

    def remove(self, x):
        n = len(self._l)
        self.discard(x)
        if len(self._l) == n:
            raise KeyError(x)

    def pop(self):
        if not self._l:
            raise KeyError("pop from an empty set")
        return self._l.pop()

    def clear(self):
        del self._l[:]

    def difference_update(self, *os):
        for o in os:
            for x in list(o):
                self.discard(x)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def intersection_update(self, o):
        o = list(o)
        self._l[:] = [x for x in self._l if any(_same(x, y) for y in o)]


class SxFrozenSet(SxBaseSet):
    __slots__ = ()

    @property
    def __class__(self):
        return _frozenset

    def __hash__(self):
        h = 0x77
        for x in self._l:
            h ^= _hash(x)
        return h
