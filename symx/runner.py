"""Explores the harnesses of one property in parallel and writes evidence."""

import collections
import fractions
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import queue
import random
import signal
import subprocess
import sys
import time
import traceback

import z3

from . import core, api, loader
from .core import PathEnd, PathBudget, Inconclusive
from .values import SymNum, SymStr
from .text import SymText

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# -- models -> concrete values --------------------------------------------------------

def model_values(ex, model):
    out = {}
    for name, (kind, e, extra) in ex.vars.items():
        v = core._const(model.eval(e, model_completion=True))
        out[name] = int(v)
    return out


def eval_norm(n, model):
    if isinstance(n, tuple):
        if n and n[0] == "set":
            return ["set"] + sorted((eval_norm(x, model) for x in n[1]), key=repr)
        return [eval_norm(x, model) for x in n]
    if type(n) is SymNum:
        v = core._const(model.eval(n.e, model_completion=True))
        if v is None:
            return ["?"]
        return int(v) if n.kind == "int" else ["f", repr(float(v))]
    if type(n) is SymStr:
        return n.pool[core._const(model.eval(n.e, model_completion=True))]
    if type(n) is SymText:
        cs = [c if isinstance(c, int) else int(core._const(model.eval(c, model_completion=True)))
              for c in n.c]
        return "".join(map(chr, cs))
    if isinstance(n, float):
        return ["f", repr(n)]
    return n


def obs_equal(a, b):
    """Compares observations; floats to within rounding of one operation."""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) == 2 and len(b) == 2 and a[0] == "f" and b[0] == "f":
            x, y = float(a[1]), float(b[1])
            return x == y or abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
        return len(a) == len(b) and all(obs_equal(x, y) for x, y in zip(a, b))
    return a == b


class Replayer(object):
    def __init__(self, prop):
        self.prop = prop
        self.p = None

    def start(self):
        env = dict(os.environ)
        env["SYMX_CONCRETE"] = "1"
        env["PYTHONHASHSEED"] = "0"
        self.p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "symx", "concrete.py"),
                                   self.prop], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=env, cwd="/")
        if self.p.stdout.readline().strip() != "ready":
            raise RuntimeError("replay server did not start")

    def run(self, harness, case, values, timeout=20):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps({"harness": harness, "case": case, "values": values,
                                           "timeout": timeout}) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            if not line:
                raise BrokenPipeError
            return json.loads(line)
        except (BrokenPipeError, OSError):
            self.stop()
            return {"status": "exception", "detail": "interpreter died (stack overflow or abort)",
                    "failures": [], "obs": [], "checks": 0}

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None


# -- exploring ---------------------------------------------------------------------------

class FunctionLog(object):
    def __init__(self):
        self.seen = {}
        self.tool = None

    def start(self):
        try:
            mon = sys.monitoring
            self.tool = 3
            mon.use_tool_id(self.tool, "symx")
            mon.register_callback(self.tool, mon.events.PY_START, self._cb)
            mon.set_events(self.tool, mon.events.PY_START)
        except Exception:
            self.tool = None

    def _cb(self, code, off):
        f = code.co_filename
        if f.startswith(loader.REPO + "/"):
            self.seen["%s:%s" % (f[len(loader.REPO) + 1:], code.co_qualname)] = code.co_firstlineno
        return sys.monitoring.DISABLE


def _alarm(signum, frame):
    raise PathBudget()


class Worker(object):
    def __init__(self, prop, opts):
        self.prop = prop
        self.opts = opts
        self.replayer = Replayer(prop)
        self.flog = FunctionLog()
        self.flog.start()
        self.rng = random.Random(opts.get("seed", 1))
        self.ex = {}
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGPROF, _alarm)

    def explore(self, hname, case, prefixes, max_paths, max_s):
        """Explores the subtrees below the given prefixes.  Returns a result dict
        with left-over prefixes when the budget runs out."""
        h = api.HARNESSES[hname]
        ex = core.Explorer()
        core.CTX = ex
        stack = [(p, 0) for p in prefixes]
        t0 = time.monotonic()
        res = {"harness": hname, "case": case, "violations": [], "mismatch": [],
               "inconclusive": [], "validated": 0, "validate_failed": 0, "reached": {},
               "known": [], "samples": [], "cut": 0}
        n = 0
        if self.opts.get("smtlog"):
            ex.smt_log = self._smtlog
        while stack:
            if n >= max_paths or time.monotonic() - t0 > max_s:
                break
            prefix, keep = stack.pop()
            ex.start(prefix, keep)
            n += 1
            ex.stats.paths += 1
            self.one(h, case, ex, res)
            stack.extend(reversed(ex.alts[::-1]))
        core.CTX = None
        res["stats"] = ex.stats.as_dict()
        res["left"] = [p for p, k in stack]
        res["functions"] = dict(self.flog.seen)
        return res

    def one(self, h, case, ex, res):
        sx = api.SymSx(ex, None)
        unexpected = None
        try:
            # The budget is processor time: a loaded machine does not use it up.
            signal.setitimer(signal.ITIMER_PROF, h.path_s)
            signal.setitimer(signal.ITIMER_REAL, 6 * h.path_s)
            try:
                h.fn(sx, **case)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
        except PathEnd as e:
            if str(e) in ("assume", "infeasible"):
                res["cut"] += 1
                return
        except Inconclusive as e:
            res["inconclusive"].append(str(e)[:200])
            self.validate(h, case, ex, res, None)
            return
        except PathBudget:
            unexpected = "no termination within %ss on this path" % h.path_s
        except RecursionError as e:
            unexpected = "RecursionError"
        except Exception as e:
            unexpected = "unexpected exception %s: %s" % (type(e).__name__, str(e)[:200])
            res.setdefault("trace", traceback.format_exc()[-3000:])
        finally:
            for k, v in sx.reached.items():
                res["reached"][k] = res["reached"].get(k, 0) + v
        if unexpected is not None:
            m = ex.path_model()
            if m is None:
                return
            self.confirm(h, case, ex, res, unexpected, m, None)
            return
        if sx.violations:
            for label, m, known in sx.violations:
                self.confirm(h, case, ex, res, label, m, known)
            return
        self.validate(h, case, ex, res, None)

    def confirm(self, h, case, ex, res, label, model, known):
        vals = model_values(ex, model)
        r = self.replayer.run(h.name, case, vals, timeout=max(10, h.path_s))
        bad = r["status"] in ("violation", "exception", "timeout")
        if bad:
            kn = known
            if r["failures"]:
                kn = r["failures"][0][1]
            entry = {"harness": h.name, "case": case, "label": label, "values": vals,
                     "status": r["status"], "detail": r["detail"],
                     "failures": r["failures"], "known": kn}
            if kn:
                if len(res["known"]) < 5:
                    res["known"].append(entry)
            else:
                res["violations"].append(entry)
        else:
            res["mismatch"].append({"harness": h.name, "case": case, "label": label,
                                    "values": vals, "status": r["status"],
                                    "trace": res.get("trace", "")})

    def validate(self, h, case, ex, res, model):
        """Replays a model of the path on the real code and compares observations."""
        quota = self.opts.get("validate_quota", 1.0)
        done = res["validated"]
        if done >= 60 and self.rng.random() > quota:
            return
        m = model if model is not None else ex.path_model()
        if m is None:
            return
        vals = model_values(ex, m)
        r = self.replayer.run(h.name, case, vals, timeout=max(10, h.path_s))
        if r["status"] in ("violation", "exception", "timeout"):
            kn = r["failures"][0][1] if r["failures"] else None
            entry = {"harness": h.name, "case": case,
                     "label": (r["failures"][0][0] if r["failures"] else r["status"]),
                     "values": vals, "status": r["status"], "detail": r["detail"],
                     "failures": r["failures"], "known": kn, "via": "path model replay"}
            (res["known"] if kn else res["violations"]).append(entry)
            return
        want = [[l, eval_norm(n, m)] for l, n in ex.obs]
        if r["status"] == "ok" and not obs_equal(want, r["obs"]):
            res["mismatch"].append({"harness": h.name, "case": case, "label": "observations differ",
                                    "values": vals, "symbolic": want, "concrete": r["obs"]})
            return
        res["validated"] += 1
        if len(res["samples"]) < 2:
            res["samples"].append({"case": case, "values": vals, "observed": r["obs"][:6]})

    def _smtlog(self, solver, cond):
        d = self.opts["smtlog"]
        if self.rng.random() < self.opts.get("smtlog_rate", 0.02):
            s = z3.Solver()
            s.add(solver.assertions())
            s.add(z3.Not(cond))
            fn = os.path.join(d, "%d-%d.smt2" % (os.getpid(), self.rng.randrange(10 ** 9)))
            with open(fn, "w") as f:
                f.write("; z3: %s\n(set-logic ALL)\n" % s.check())
                f.write(s.to_smt2())


def worker_main(prop, opts, inq, outq):
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not opts.get("debug"):
            os.dup2(devnull, 2)
        sys.setrecursionlimit(6000)
        w = Worker(prop, opts)
        while True:
            job = inq.get()
            if job is None:
                break
            jid, hname, case, prefixes, max_paths, max_s = job
            try:
                outq.put((jid, w.explore(hname, case, prefixes, max_paths, max_s)))
            except BaseException:
                outq.put((jid, {"error": traceback.format_exc(), "harness": hname, "case": case}))
        w.replayer.stop()
    except BaseException:
        outq.put((None, {"error": traceback.format_exc()}))


class Result(object):
    def __init__(self):
        self.h = collections.OrderedDict()
        self.violations = []
        self.known = []
        self.mismatch = []
        self.errors = []
        self.functions = {}
        self.exhausted = True
        self.unexplored = 0


def run(prop, tier, seed=1, nproc=None, time_limit=None, only=None, opts=None):
    """Explores every harness of the property; returns a Result."""
    opts = dict(opts or {})
    opts["seed"] = seed
    nproc = nproc or min(8, os.cpu_count() or 2)
    names = [n for n, h in api.HARNESSES.items()
             if h.prop == prop and (only is None or n.split(".", 1)[1] == only or n == only)]
    ctxm = multiprocessing.get_context("fork")
    inq, outq = ctxm.Queue(), ctxm.Queue()
    workers = [ctxm.Process(target=worker_main, args=(prop, opts, inq, outq), daemon=True)
               for _ in range(nproc)]
    for w in workers:
        w.start()
    result = Result()
    pending = collections.deque()
    for n in names:
        h = api.HARNESSES[n]
        result.h[n] = {"doc": h.doc, "cases": [], "stats": collections.Counter(),
                       "reached": collections.Counter(), "validated": 0, "cut": 0,
                       "inconclusive": collections.Counter(), "samples": [], "solver_s": 0.0,
                       "cases_n": 0}
        for case in h.cases[tier]:
            result.h[n]["cases"].append(case)
            pending.append((n, case, [[]]))
    t0 = time.monotonic()
    outstanding = {}
    jid = 0
    stop = False

    def submit(n, case, prefixes, small):
        nonlocal jid
        jid += 1
        outstanding[jid] = (n, case)
        inq.put((jid, n, case, prefixes, 10 ** 9, 0.3 if small else 2.0))

    first = True
    try:
        while pending or outstanding:
            while pending and len(outstanding) < nproc * 2 and not stop:
                n, case, pre = pending.popleft()
                submit(n, case, pre, len(pending) + len(outstanding) < nproc)
            if stop and not outstanding:
                break
            try:
                rid, res = outq.get(timeout=5)
            except queue.Empty:
                if not any(w.is_alive() for w in workers):
                    result.errors.append("all workers died")
                    break
                dead = [w for w in workers if not w.is_alive()]
                if dead:
                    result.errors.append("a worker died (exit %s)" % dead[0].exitcode)
                    break
                continue
            outstanding.pop(rid, None)
            if "error" in res:
                result.errors.append("%s %s: %s" % (res.get("harness"), res.get("case"), res["error"]))
                stop = True
                continue
            d = result.h[res["harness"]]
            st = res["stats"]
            for k in core.Stats.FIELDS:
                d["stats"][k] += st[k]
            d["solver_s"] += st["solver_s"]
            for k, v in res["reached"].items():
                d["reached"][k] += v
            d["validated"] += res["validated"]
            d["cut"] += res["cut"]
            for x in res["inconclusive"]:
                d["inconclusive"][x] += 1
            if len(d["samples"]) < 3:
                d["samples"] += res["samples"][:1]
            result.functions.update(res["functions"])
            result.mismatch += res["mismatch"]
            result.known += res["known"]
            result.violations += res["violations"]
            if len(result.violations) >= 3:
                stop = True
            left = res["left"]
            if left:
                # split the left-over subtree among idle workers
                k = max(1, min(len(left), nproc if len(pending) < nproc else 1))
                for i in range(k):
                    part = left[i::k]
                    if part:
                        pending.append((res["harness"], res["case"], part))
            if time_limit and time.monotonic() - t0 > time_limit and (pending or outstanding):
                if not stop:
                    result.exhausted = False
                stop = True
            if stop:
                result.unexplored += sum(len(p[2]) for p in pending)
                if not result.violations and pending:
                    result.exhausted = False
                pending.clear()
    finally:
        for _ in workers:
            inq.put(None)
        time.sleep(0.05)
        for w in workers:
            w.join(timeout=1.0)
            if w.is_alive():
                w.kill()
    result.wall = time.monotonic() - t0
    return result
