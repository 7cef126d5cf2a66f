"""Term builders and reference semantics shared by the harnesses."""

import collections

import agentspeak
from agentspeak import Var, Wildcard, Literal, LinkedList


class Refs(object):
    """Variables available to one generated term set."""

    def __init__(self, nvars):
        self.vars = [Var() for _ in range(nvars)]


FUNCTORS = ("a", "b", "ab", "f", "a1", "z")
STRINGS = ("a", "b", "", "x y", "ab")


def leaf(sx, name, kinds, refs=None, lo=-3, hi=3):
    """One leaf term: kinds is a list of 'int','float','bool','str','atom','var','wild','nil'."""
    k = sx.choose(name + ".k", kinds)
    if k == "int":
        return sx.num(name, lo, hi)
    if k == "float":
        return sx.num(name, lo, hi, "float")
    if k == "frac":
        return sx.num(name, lo, hi, "float", den=4)
    if k == "bool":
        return sx.flag(name)
    if k == "str":
        return sx.pool(name, STRINGS)
    if k == "atom":
        return Literal(sx.pool(name, FUNCTORS))
    if k == "var":
        return sx.choose(name, refs.vars)
    if k == "wild":
        return Wildcard()
    if k == "nil":
        return ()
    raise AssertionError(k)


def term(sx, name, depth, kinds, comps, refs=None, maxargs=2, **kw):
    """A term of nesting depth <= depth.  comps: subset of 'lit','tuple','ll'."""
    if depth <= 0:
        return leaf(sx, name, kinds, refs, **kw)
    c = sx.choose(name + ".c", ["leaf"] + list(comps))
    if c == "leaf":
        return leaf(sx, name, kinds, refs, **kw)
    if c == "lit":
        n = sx.choose(name + ".n", list(range(1, maxargs + 1)))
        return Literal(sx.pool(name + ".f", FUNCTORS),
                       [term(sx, name + ".a", depth - 1, kinds, comps, refs, maxargs, **kw)
                        for _ in range(n)])
    if c == "tuple":
        n = sx.choose(name + ".n", list(range(0, maxargs + 1)))
        return tuple(term(sx, name + ".a", depth - 1, kinds, comps, refs, maxargs, **kw)
                     for _ in range(n))
    if c == "ll":
        h = term(sx, name + ".h", depth - 1, kinds, comps, refs, maxargs, **kw)
        t = sx.choose(name + ".tk", ["nil", "one", "var"] if refs and refs.vars else ["nil", "one"])
        if t == "nil":
            tail = ()
        elif t == "one":
            tail = (term(sx, name + ".t", depth - 1, kinds, [], refs, maxargs, **kw),)
        else:
            tail = sx.choose(name + ".tv", refs.vars)
        return LinkedList(h, tail)
    raise AssertionError(c)


# -- reference unification over normal forms (independent of the code) ------------------

class Unknown(Exception):
    pass


def is_var(t):
    return isinstance(t, Var) and not isinstance(t, Wildcard)


def is_wild(t):
    return isinstance(t, Wildcard)


def view(t):
    """Canonical constructor view: ('num',x) ('bool',b) ('str',s) ('lit',f,args)
    ('cons',h,t) ('nil',)."""
    if isinstance(t, bool):
        return ("bool", t)
    if isinstance(t, Literal):
        return ("lit", t.functor, tuple(t.args))
    if isinstance(t, LinkedList):
        return ("cons", t.head, t.tail)
    if isinstance(t, tuple):
        return ("cons", t[0], t[1:]) if t else ("nil",)
    if isinstance(t, str):
        return ("str", t)
    if isinstance(t, (int, float)):
        return ("num", t)
    raise Unknown(t)


class RefUnifier(object):
    """Textbook unification with the solver deciding leaf equalities; forks on them."""

    def __init__(self, sx):
        self.sx = sx
        self.s = {}
        self.cond = []

    def walk(self, t):
        while is_var(t) and t in self.s:
            t = self.s[t]
        return t

    def occurs(self, v, t):
        t = self.walk(t)
        if t is v:
            return True
        if is_wild(t) or is_var(t):
            return False
        w = view(t)
        if w[0] == "lit":
            return any(self.occurs(v, x) for x in w[2])
        if w[0] == "cons":
            return self.occurs(v, w[1]) or self.occurs(v, w[2])
        return False

    def unify(self, a, b):
        """Formula for unifiability given that structural clashes are decided; returns
        a formula (conjunction of leaf equalities) or False."""
        a, b = self.walk(a), self.walk(b)
        if is_wild(a) or is_wild(b):
            return True
        if is_var(a):
            if a is not b:
                if self.occurs(a, b):
                    raise Unknown("occurs check")
                self.s[a] = b
            return True
        if is_var(b):
            if self.occurs(b, a):
                raise Unknown("occurs check")
            self.s[b] = a
            return True
        x, y = view(a), view(b)
        if x[0] != y[0]:
            return False
        sx = self.sx
        if x[0] == "nil":
            return True
        if x[0] in ("num", "str", "bool"):
            return sx.eq(x[1], y[1])
        if x[0] == "lit":
            if len(x[2]) != len(y[2]):
                return False
            cs = [sx.eq(x[1], y[1])]
            for p, q in zip(x[2], y[2]):
                c = self.unify(p, q)
                if c is False:
                    return False
                cs.append(c)
            return sx.And(*cs)
        c1 = self.unify(x[1], y[1])
        if c1 is False:
            return False
        c2 = self.unify(x[2], y[2])
        if c2 is False:
            return False
        return sx.And(c1, c2)

    def resolve(self, t, names):
        """Fully substituted normal form; unbound variables are numbered in `names`."""
        t = self.walk(t)
        if is_wild(t):
            return ("wild",)
        if is_var(t):
            return ("var", names.setdefault(t, len(names)))
        w = view(t)
        if w[0] == "lit":
            return ("lit", w[1], tuple(self.resolve(x, names) for x in w[2]))
        if w[0] == "cons":
            return ("cons", self.resolve(w[1], names), self.resolve(w[2], names))
        return w


def resolve_scope(t, scope, names):
    """The same normal form under the code's own scope (dereferenced here, by hand)."""
    n = 0
    while is_var(t) and t in scope:
        t = scope[t]
        n += 1
        if n > 100:
            raise Unknown("cyclic scope")
    if is_wild(t):
        return ("wild",)
    if is_var(t):
        return ("var", names.setdefault(t, len(names)))
    w = view(t)
    if w[0] == "lit":
        return ("lit", w[1], tuple(resolve_scope(x, scope, names) for x in w[2]))
    if w[0] == "cons":
        return ("cons", resolve_scope(w[1], scope, names), resolve_scope(w[2], scope, names))
    return w


def same_view(sx, a, b):
    """Formula: two resolved views are equal."""
    if a[0] != b[0]:
        return False
    if a[0] in ("wild", "nil"):
        return True
    if a[0] == "var":
        return a[1] == b[1]
    if a[0] in ("num", "str", "bool"):
        return sx.eq(a[1], b[1])
    if a[0] == "lit":
        if len(a[2]) != len(b[2]):
            return False
        return sx.And(sx.eq(a[1], b[1]), *[same_view(sx, x, y) for x, y in zip(a[2], b[2])])
    return sx.And(same_view(sx, a[1], b[1]), same_view(sx, a[2], b[2]))


def stack():
    return collections.deque()
