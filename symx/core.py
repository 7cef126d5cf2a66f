"""Path-exploring symbolic executor core.

The real agentspeak functions are run under CPython on proxy values.  Every
truth test on a symbolic value asks z3 which outcomes are feasible under the
current path condition and forks; every `check` asks z3 whether the path
condition together with the negated assertion is satisfiable.  Exploration is
depth first by re-execution, with the solver stack shared between paths that
have a common prefix.
"""

import time

import z3


class PathEnd(BaseException):
    """Ends the current path (infeasible assumption, or a recorded violation)."""


class PathBudget(BaseException):
    """The current path exceeded its time budget (possible non-termination)."""


class Inconclusive(BaseException):
    pass


class Stats(object):
    FIELDS = ("paths", "branches", "forks", "queries", "unknown", "checks",
              "discharged_const", "discharged_smt", "concretised", "assume_cut")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.labels = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        d["labels"] = dict(self.labels)
        return d


CTX = None   # the active Explorer, or None


def ctx():
    if CTX is None:
        raise RuntimeError("symbolic value used outside of an exploration")
    return CTX


class Explorer(object):
    def __init__(self, timeout_ms=20000, realize_max=80):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.depth = 0             # events asserted in the solver
        self.stats = Stats()
        self.realize_max = realize_max
        self.smt_log = None
        self._reset_path()
        self.prefix = []

    # -- path state ---------------------------------------------------------

    def _reset_path(self):
        self.event = 0             # events seen on this path
        self.dec = []              # decisions: (value, event_index, forced)
        self.alts = []             # pending alternative prefixes opened on this path
        self.known = {}
        self.keep = []
        self.counter = 0
        self.vars = {}             # name -> (kind, z3 const, extra)
        self.obs = []
        self.magic = {}
        self.stubs = {}
        self.checked_here = 0

    def start(self, prefix, keep_depth):
        """Begin a path with the given decision prefix; the solver retains
        `keep_depth` events."""
        while self.depth > keep_depth:
            self.solver.pop()
            self.depth -= 1
        self._reset_path()
        self.prefix = prefix

    def fresh(self, hint="v"):
        self.counter += 1
        return "%s!%d" % (hint, self.counter)

    def _event(self, expr):
        self.event += 1
        if self.event > self.depth:
            self.solver.push()
            self.solver.add(expr)
            self.depth += 1
            return True
        return False

    def query(self, *extra):
        t = time.monotonic()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.monotonic() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    # -- primitives ----------------------------------------------------------

    def assume(self, expr):
        if isinstance(expr, bool):
            if not expr:
                self.stats.assume_cut += 1
                raise PathEnd("assume")
            return
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        new = self._event(expr)
        self._remember(expr, True)
        if new and len(self.dec) >= len(self.prefix):
            if self.query() == z3.unsat:
                self.stats.assume_cut += 1
                raise PathEnd("assume")

    def constrain(self, expr):
        """Adds a constraint known to be satisfiable (domain of a fresh variable)."""
        self._event(expr)

    def _remember(self, expr, val):
        self.known[expr.get_id()] = val
        self.keep.append(expr)

    def branch(self, expr):
        """Decides a symbolic truth value, forking if both outcomes are feasible."""
        if isinstance(expr, bool):
            return expr
        self.stats.branches += 1
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        k = self.known.get(expr.get_id())
        if k is not None:
            return k
        i = len(self.dec)
        if i < len(self.prefix):
            d = self.prefix[i]
            forced = False
        else:
            t = self.query(expr)
            f = self.query(z3.Not(expr))
            if t == z3.unknown or f == z3.unknown:
                raise Inconclusive("solver answered unknown on a branch condition")
            if t == z3.sat and f == z3.sat:
                d = True
                forced = False
                self.stats.forks += 1
                self.alts.append((self._prefix() + [False], self.event))
            elif t == z3.sat:
                d, forced = True, True
            elif f == z3.sat:
                d, forced = False, True
            else:
                raise PathEnd("infeasible")
        self.dec.append(d)
        self._event(expr if d else z3.Not(expr))
        self._remember(expr, d)
        return d

    def pick(self, n, hint="pick"):
        """A fresh symbolic selector in range(n), decided immediately."""
        name = hint
        v = z3.Int(name)
        i = len(self.dec)
        if n <= 0:
            raise PathEnd("empty pick")
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = 0
            for alt in range(n - 1, 0, -1):
                self.alts.append((self._prefix() + [alt], self.event))
            if n > 1:
                self.stats.forks += n - 1
        self.dec.append(d)
        self._event(v == d)
        self.stats.branches += 1
        return d, v

    def realize(self, expr):
        """A concrete value for an integer expression: forks over every feasible
        value (up to realize_max, beyond which the path is concretised)."""
        expr = z3.simplify(expr)
        c = _const(expr)
        if c is not None:
            return c
        n = 0
        while True:
            i = len(self.dec)
            if i < len(self.prefix):
                v, d = self.prefix[i]
            else:
                r = self.query()
                if r == z3.unsat and n == 0:
                    raise PathEnd("infeasible")
                if r != z3.sat:
                    raise Inconclusive("no model while realising")
                v = _const(self.solver.model().eval(expr, model_completion=True))
                other = self.query(expr != v)
                if other == z3.unknown:
                    raise Inconclusive("unknown while realising")
                d = True
                if other == z3.sat:
                    if n >= self.realize_max:
                        self.stats.concretised += 1
                    else:
                        self.stats.forks += 1
                        self.alts.append((self._prefix() + [(v, False)], self.event))
            self.dec.append((v, d))
            e = expr == v
            self._event(e if d else z3.Not(e))
            if d:
                return v
            n += 1

    def _prefix(self):
        return list(self.dec)

    # -- assertions ------------------------------------------------------------

    def prove(self, cond):
        """None when PC implies cond, otherwise a model of PC and not cond."""
        self.stats.checks += 1
        if isinstance(cond, bool):
            if cond:
                self.stats.discharged_const += 1
                return None
            r = self.query()
        else:
            cond = z3.simplify(cond)
            if z3.is_true(cond):
                self.stats.discharged_const += 1
                return None
            if self.smt_log is not None:
                self.smt_log(self.solver, cond)
            r = self.query(z3.Not(cond))
        if r == z3.unsat:
            self.stats.discharged_smt += 1
            return None
        if r == z3.unknown:
            raise Inconclusive("solver answered unknown on an assertion")
        return self.solver.model()

    def path_model(self):
        if self.query() != z3.sat:
            return None
        return self.solver.model()


def _const(e):
    if isinstance(e, int):
        return e
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_rational_value(e):
        fr = e.as_fraction()
        return fr
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None
