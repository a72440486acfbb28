#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a property is claimed when the harness has tests for it."""
import glob, json, os, re, subprocess
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
tests = {}
for f in glob.glob(os.path.join(root, "harness", "*_test.go")):
    for m in re.finditer(r"^func Test(P\d\d)_(\w+)\(", open(f).read(), re.M):
        tests.setdefault(m.group(1), []).append(m.group(2))
NOTE = {}
exec(open(os.path.join(here, "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in tests:
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
          "technique": "property-based testing (rapid): " + TECH.get(i, "generated histories against a reference model"),
          "level": "exploration", "level_note": NOTES.get(i, "generated cases within the bounds of DESIGN.md; shrunk counterexamples are replay files")})
    else:
        na.append({"property": i, "reason": "no check built yet"})
man = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])
