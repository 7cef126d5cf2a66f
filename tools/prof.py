"""prof.py PROP HARNESS CASEIDX SECONDS: single-process profile and path counts by choice"""
import sys, os, collections, cProfile, pstats
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from symx import loader, runner, api
loader.install()
sys.setrecursionlimit(6000)
import logging; logging.disable(logging.CRITICAL)
import importlib
prop, name, ci, secs = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4])
importlib.import_module("props." + prop.lower())
h = api.HARNESSES["%s.%s" % (prop, name)]
case = h.cases["quick"][ci]
w = runner.Worker(prop, {"validate_quota": 0})
w.validate = lambda *a: None
cnt = collections.Counter()
orig = w.one
def one(h, case, ex, res):
    orig(h, case, ex, res)
    cnt[tuple((n, d[0] if isinstance(d, tuple) else d) for n, d in zip([k for k in ex.vars if ex.vars[k][0] == "idx"], [0]*0))] += 1
w.one = one
pr = cProfile.Profile()
pr.enable()
r = w.explore(h.name, case, [[]], 10**9, secs)
pr.disable()
print(r["stats"], r["violations"][:1], r["mismatch"][:1], r.get("trace"))
pstats.Stats(pr).sort_stats("tottime").print_stats(22)
