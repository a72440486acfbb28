#!/usr/bin/env python3
"""seed.py <file.seed>... : plants the bugs described in seed files (used only to produce /verif/seeded).
A seed file: python literal dict with id, property, needs, breaks, edits=[(file, old, new)], main (go source)."""
import sys, os, json, subprocess, ast
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    for s in ns["SEEDS"]:
        d = "/verif/seeded/" + s["id"]
        subprocess.run(["git", "-C", "/tmp/seed", "checkout", "-q", "--", "."], check=True)
        ok = True
        for (p, old, new) in s["edits"]:
            p = "/tmp/seed/ecore/" + p
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT DOES NOT APPLY", p, t.count(old)); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        os.makedirs(d, exist_ok=True)
        open(d + "/main.go", "w").write(s["main"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = subprocess.run(["bash", "/verif/tools/mkseed.sh", s["id"]], capture_output=True, text=True)
        out = (r.stdout + r.stderr).strip().splitlines()
        print("==", s["id"], "\n".join(out[-8:]))
        if r.returncode or not out or not out[-1].startswith("OK"):
            print("REJECTED", s["id"]); subprocess.run(["rm", "-r", d])
subprocess.run(["git", "-C", "/tmp/seed", "checkout", "-q", "--", "."])
