"""Writes /verif/MANIFEST.json: every property with a props/cXX.py module is claimed."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
}
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(H, "props", i.lower() + ".py")
    if i in NA or not os.path.exists(path):
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3-vt check.py %s --tier quick" % i,
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
        "technique": "symbolic execution of the real Python source (z3 decides every branch and assertion), counterexamples replayed on the unmodified code",
        "level": "model_checking",
        "level_note": "bounded: holds for all symbolic values within the stated bounds; z3, the value models in symx/ and the source instrumentation are trusted (path models are replayed on the real code)",
        "evidence_file": "evidence/%s.json" % i,
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
