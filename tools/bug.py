"""bug.py SPEC.py [ID...]: makes /verif/seeded/<id>/ from a list BUGS of dicts
{id, property, edits: [(file, old, new)], demo, needs, what_it_breaks} after checking
in a scratch copy that it builds, passes the tests, and that the demonstration tells
the two trees apart."""
import difflib, json, os, shutil, subprocess, sys, re

WT = "/tmp/bugwt"
PRELUDE = '''import logging, os, sys
sys.path.insert(0, os.getcwd())
import agentspeak, agentspeak.runtime, agentspeak.stdlib, agentspeak.ext_stdlib
from agentspeak import Literal, Var, LinkedList, StringSource, AslError, AggregatedError
logging.disable(logging.CRITICAL)
assert agentspeak.__file__.startswith(os.getcwd()), agentspeak.__file__

def run(src, name="x.asl", limit=10000, extra=None):
    """Runs a program; returns the terms given to .rec(...) as strings."""
    out = []
    actions = agentspeak.Actions(agentspeak.ext_stdlib.actions)
    @actions.add(".rec")
    def rec(agent, term, intention):
        out.append(" ".join(agentspeak.asl_repr(agentspeak.freeze(t, intention.scope, {})) for t in term.args))
        yield
    env = agentspeak.runtime.Environment()
    srcs = src if isinstance(src, list) else [(name, src)]
    for n, s in srcs:
        env.build_agent(StringSource(n, s), actions)
    if extra:
        extra(env)
    try:
        env.run()
    except (AslError, AggregatedError) as e:
        out.append("ERROR")
    return out

def expect(got, want):
    if got != want:
        print("got ", got)
        print("want", want)
        sys.exit(1)

'''
DEMO_SH = '''#!/bin/bash
# run in the repository after the build
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def fresh():
    shutil.rmtree(WT, ignore_errors=True)
    shutil.copytree("/repo", WT, symlinks=True)


def base(path):
    return sh("git -C /repo show fda036b:%s" % path).stdout


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    for b in ns["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        fresh()
        files = {}
        ok = True
        for path, old, new in b["edits"]:
            p = os.path.join(WT, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT matches %d times in %s" % (s.count(old), path))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
            files[path] = 1
        if not ok:
            continue
        patch = sh("git -C %s diff -- %s" % (WT, " ".join(files))).stdout
        removed = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
        orig = set()
        for f in files:
            orig |= set(base(f).splitlines())
        alien = [l for l in removed if l not in orig]
        if alien or not removed:
            print(b["id"], "WARNING removed lines not in the original:", alien)
        d = "/verif/seeded/%s" % b["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.py", "w").write(PRELUDE + b["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
        t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + WT)
        open("/tmp/bugtest.sh", "w").write(t)
        r = sh("bash /tmp/bugtest.sh /tmp/bugout.json")
        tests = r.stdout.strip().splitlines()[-1:]
        c = sh("bash %s/demo.sh" % d, cwd="/repo")
        p = sh("bash %s/demo.sh" % d, cwd=WT)
        good = tests and tests[0].startswith("33 passed, 0 failed") and c.returncode == 0 and p.returncode != 0
        print(b["id"], "OK" if good else "BAD", tests, "clean", c.returncode, "patched", p.returncode)
        if not good:
            print(c.stdout[-1500:], c.stderr[-1500:])
            print(p.stdout[-1500:], p.stderr[-1500:])
            print(r.stdout[-800:])
            shutil.rmtree(d)
    shutil.rmtree(WT, ignore_errors=True)


main()
