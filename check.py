#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--replay FILE]

Decides one property by symbolic execution of /repo's current agentspeak source.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken (replayed on
the unmodified code).  Exit 2: no verdict (engine/encoding problem)."""

import argparse
import hashlib
import importlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/bin/python"


def reexec():
    if os.environ.get("PYTHONHASHSEED") != "0" or not _have_z3():
        env = dict(os.environ, PYTHONHASHSEED="0")
        exe = sys.executable
        if not _have_z3():
            exe = shutil.which("python3-vt") or VT
        if os.environ.get("SYMX_REEXEC"):
            print("no z3 bindings available", file=sys.stderr)
            sys.exit(2)
        env["SYMX_REEXEC"] = "1"
        os.execve(exe, [exe, "-B"] + [os.path.abspath(__file__)] + sys.argv[1:], env)


def _have_z3():
    try:
        import z3  # noqa
        return True
    except ImportError:
        return False


def load_known(prop):
    """{key: text} of findings listed for this property."""
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def write_replay(prop, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": prop, "harness": v["harness"], "case": v["case"],
                       "values": v["values"], "label": v["label"], "status": v["status"],
                       "detail": v["detail"]}, indent=1)
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.md5(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body)
    return path


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--nproc", type=int)
    ap.add_argument("--time-limit", type=float)
    ap.add_argument("--smtlog")
    ap.add_argument("--debug", action="store_true")
    args = ap.parse_args()
    reexec()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    prop = args.property.upper()
    t0 = time.time()

    if args.replay:
        r = json.load(open(args.replay))
        if r["status"] == "unreachable":
            os.execv(sys.executable, [sys.executable, os.path.abspath(__file__), prop, "--tier", "quick", "--only", r["harness"].split(".")[-1]])
        from symx.runner import Replayer  # noqa
        rp = Replayer(prop)
        rp.start()
        res = rp.run(r["harness"], r["case"], r["values"], 60)
        rp.stop()
        print(json.dumps(res, indent=1))
        if res["status"] in ("violation", "exception", "timeout"):
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        return 0

    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    from symx import loader, runner, api
    loader.install()
    sys.setrecursionlimit(6000)
    import logging
    import warnings
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    try:
        mod = importlib.import_module("props." + prop.lower())
    except Exception:
        import traceback
        traceback.print_exc()
        print("check error: cannot load the code under test symbolically", file=sys.stderr)
        return 2

    limit = args.time_limit or (600 if tier == "quick" else 3000)
    opts = {"debug": args.debug,
            "validate_quota": 0.25 if tier == "quick" else 0.1}
    if args.smtlog:
        os.makedirs(args.smtlog, exist_ok=True)
        opts["smtlog"] = os.path.abspath(args.smtlog)
    res = runner.run(prop, tier, seed, args.nproc, limit, args.only, opts)

    known = load_known(prop)
    violations = list(res.violations)
    seen_known = {}
    for k in res.known:
        if k["known"] in known:
            seen_known.setdefault(k["known"], k)
        else:
            violations.append(k)
    vac = []
    if not violations and res.exhausted and not res.mismatch:
        for n, d in res.h.items():
            h = api.HARNESSES[n]
            want = h.expect_reach or []
            if not d["reached"]:
                vac.append("%s: no assertion was reached" % n)
            for lab in want:
                if not d["reached"].get(lab) and lab.startswith("possible: ") and not sum(d["inconclusive"].values()):
                    # the solver has shown that no values lead there
                    violations.append({"harness": n, "case": None, "values": {}, "label": lab, "status": "unreachable",
                                       "detail": "no values within the bounds lead to this"})
                elif not d["reached"].get(lab):
                    vac.append("%s: assertion %r was never reached" % (n, lab))
    inconc = sum(sum(d["inconclusive"].values()) for d in res.h.values())

    tot = {}
    for d in res.h.values():
        for k, v in d["stats"].items():
            tot[k] = tot.get(k, 0) + v
    # Paths on which the symbolic run could not follow the code to the end (path budget,
    # unsupported operation, solver unknown, replay that differs) decide nothing, and are
    # not counted as explored.  If they are many, there is no verdict at all.
    undecided = inconc + len(res.mismatch)
    too_many = undecided > 0.2 * max(1, tot.get("paths", 0))
    samples = []
    for n, d in res.h.items():
        for s in d["samples"]:
            samples.append({"harness": n, **s})
    if not samples:
        samples.append({"note": "no path completed"})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(tot.get("paths", 0)),
            "transitions": int(tot.get("branches", 0)),
            "traces_validated_against_impl": sum(d["validated"] for d in res.h.values()),
            "samples": samples[:12],
            "exhaustive": bool(res.exhausted and not violations and not undecided and not res.errors),
            "queries_discharged": int(tot.get("queries", 0)),
            "assertions_checked": int(tot.get("checks", 0)),
            "assertions_unsat_by_smt": int(tot.get("discharged_smt", 0)),
            "assertions_reduced_to_true": int(tot.get("discharged_const", 0)),
            "solver_unknown": int(tot.get("unknown", 0)),
            "solver_s": round(sum(d["solver_s"] for d in res.h.values()), 3),
            "concretised": int(tot.get("concretised", 0)),
            "inconclusive_paths": inconc,
            "encoding_mismatches": len(res.mismatch),
            "undecided_paths": undecided,
            "functions_encoded": sorted(res.functions),
            "bounds": getattr(mod, "BOUNDS", {}).get(tier) or getattr(mod, "BOUNDS", {}),
            "outside": getattr(mod, "OUTSIDE", []),
            "harnesses": {n: {"doc": d["doc"], "cases": len(d["cases"]),
                              "paths": int(d["stats"]["paths"]),
                              "paths_cut_by_assumption": d["cut"],
                              "checks": int(d["stats"]["checks"]),
                              "validated": d["validated"],
                              "reached": dict(d["reached"]),
                              "inconclusive": dict(d["inconclusive"])}
                          for n, d in res.h.items()},
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "violations": len(violations),
        "wall_s": round(time.time() - t0, 3),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    for n, d in res.h.items():
        print("%-34s paths %6d  checks %7d  queries %7d  validated %5d  solver %.1fs%s" % (
            n, d["stats"]["paths"], d["stats"]["checks"], d["stats"]["queries"], d["validated"],
            d["solver_s"], "  INCONCLUSIVE %s" % dict(d["inconclusive"]) if d["inconclusive"] else ""))
    for key, k in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, key, known[key]))
    if violations:
        v = violations[0]
        for v in violations[:3]:
            path = write_replay(prop, v)
            print("harness %s case %s: %s [%s] %s" % (v["harness"], v["case"], v["label"],
                                                     v["status"], v["detail"][:300]))
            print("  inputs: %s" % json.dumps(v["values"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    rc = 0
    for e in res.errors:
        print("check error: %s" % e)
        rc = 2
    for m in res.mismatch[:5]:
        print("encoding mismatch (not a verdict): %s" % json.dumps(m, default=str)[:3000])
    for v in vac:
        print("vacuous: %s" % v)
        rc = 2
    if undecided:
        print("undecided paths: %d" % undecided)
        if too_many:
            rc = 2
    if not res.exhausted:
        print("time limit: exploration not exhausted (%d subtrees left)" % res.unexplored)
    print("%s %s: %s in %.1fs (%d paths, %d assertions)" % (
        prop, tier, "held on everything explored" if rc == 0 else "NO VERDICT", time.time() - t0,
        tot.get("paths", 0), tot.get("checks", 0)))
    return rc


if __name__ == "__main__":
    sys.exit(main())
