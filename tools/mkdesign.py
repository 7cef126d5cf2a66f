#!/usr/bin/env python3
import ast, json, os, re
V = "/verif"
out = [open(V + "/tools/design_head.md").read()]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
man = json.load(open(V + "/MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
notes = json.load(open(V + "/tools/notes.json"))
for p in props:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    out.append(p["statement"] + "\n")
    if i in na:
        out.append("**Not applicable**: " + na[i] + "\n")
        continue
    t = ast.parse(open(V + "/props/%s.py" % i.lower()).read())
    v = {}
    hs = []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            v[n.targets[0].id] = ast.literal_eval(n.value)
        if isinstance(n, ast.FunctionDef) and any(isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness" for d in n.decorator_list):
            hs.append((n.name, " ".join((ast.get_docstring(n) or "").split())))
    if i in notes:
        out.append(notes[i] + "\n")
    out.append("Harnesses (`props/%s.py`): " % i.lower() + "; ".join("*%s*: %s" % h for h in hs) + ".\n")
    out.append("Bounds, quick: %s. Thorough: %s.\n" % (v["BOUNDS"]["quick"], v["BOUNDS"]["thorough"]))
    if v.get("OUTSIDE"):
        out.append("Outside: " + "; ".join(v["OUTSIDE"]) + ".\n")
    if v.get("ASSUMPTIONS"):
        out.append("Assumes: " + "; ".join(v["ASSUMPTIONS"]) + ".\n")
out.append("## Defects found and repaired\n\nEach was reported by a check (or by building it), confirmed by running the real library, and repaired\nin one `fix:` commit; with the repair undone the check reports it again.\n")
for l in open(V + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l.strip())
    if m:
        out.append("* %s (`%s`): %s" % m.groups())
out.append("\nThere are no open known findings.\n")
out.append(open(V + "/tools/design_tail.md").read())
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
out.append("## Planted bugs\n\nEach folder of `seeded/` breaks a property, passes the tests, and has a demonstration. Result of the quick\ncheck of its property (`tools/catch.sh`):\n\n| bug | property | what it breaks | result |\n|---|---|---|---|")
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % b))
    c = caught.get(b)
    out.append("| %s | %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " "), "not run" if c is None else "caught in %d s" % c[1] if c[0] == 1 else "**missed**"))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
