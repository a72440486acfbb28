#!/usr/bin/env python3
"""run.py <property> <quick|thorough>     run the checks of a property
run.py <property> --replay <file>        replay a saved failure
run.py --setup                           compile everything once

Rebuilds the harness against the working tree of /repo, runs its property
tests in parallel shards, writes evidence/<property>.json.
exit 0: held; exit 1: VIOLATION line printed; anything else: error of the check.
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
SHARDS = 8
RACE = {"P31": SHARDS, "P22": 3, "P34": 2}  # number of shards which run with the race detector
SLOW = {"P22": 6, "P34": 5}               # their number of cases is divided by this
# the number of cases written in the tests are multiplied by these
QUICK = {"P01": 10, "P06": 8, "P07": 7, "P08": 15, "P09": 20, "P10": 10, "P11": 20, "P12": 8, "P13": 20, "P14": 7, "P15": 6,
         "P16": 6, "P17": 20, "P20": 7, "P21": 7, "P22": 1, "P25": 12, "P28": 7, "P29": 15, "P30": 20, "P31": 4, "P32": 25,
         "P33": 60, "P34": 8, "*": 5}
SCALE = {"quick": QUICK, "thorough": {k: 12 * v for k, v in QUICK.items()}}
BUDGET = {"quick": 780, "thorough": 3 * 3600}

def goenv():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("GO"):
            del e[k]
    godirs = [d for d in ("/opt/veriftools/go1.23.12/bin", "/usr/local/go/bin") if os.path.isdir(d)]
    e["PATH"] = ":".join(godirs + ["/usr/local/bin", "/usr/bin", "/bin"])
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOENV="off",
             GOFLAGS="-mod=mod -buildvcs=false", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"))
    return e

def raced(prop, shard):
    return shard < RACE.get(prop, 0)

def build(prop, scratch):
    """build the binaries of the shards of a property : with or without the race detector"""
    return {race: build_one(race, scratch) for race in {raced(prop, i) for i in range(SHARDS)}}

def build_one(race, scratch):
    out = os.path.join(scratch, "race.test" if race else "h.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out]
    if race:
        cmd += ["-race", "-gcflags=all=-d=checkptr=0"]
    cover = os.environ.get("VERIF_COVER")
    if cover:
        cmd += ["-cover", "-coverpkg=github.com/masagroup/soft.go/ecore"]
    r = subprocess.run(cmd + ["."], cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout)
        print("ERROR: the harness does not build")
        sys.exit(2)
    return out

def shard_env(prop, tier, seed, shard, d):
    e = goenv()
    os.makedirs(os.path.join(d, "tmp"), exist_ok=True)
    e.update(VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD=str(shard),
             VERIF_STATS_DIR=os.path.join(d, "stats"), TMPDIR=os.path.join(d, "tmp"),
             VERIF_ROOT=HERE, GOMAXPROCS=e.get("VERIF_GOMAXPROCS", "4" if prop in RACE else "2"),
             GORACE="halt_on_error=0 exitcode=66 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0", GOTRACEBACK="all")
    for name, key in (("VERIF_SCALE", "quick"), ("VERIF_MULT", "thorough")):
        e.setdefault(name, str(SCALE[key].get(prop, SCALE[key]["*"])))
    if raced(prop, shard):
        e["VERIF_DIVIDE"] = str(SLOW.get(prop, 1))
    os.makedirs(e["VERIF_STATS_DIR"], exist_ok=True)
    return e

def start(binary, prop, tier, seed, shard, scratch, tag=""):
    d = os.path.join(scratch, f"shard{shard}{tag}")
    os.makedirs(d, exist_ok=True)
    out = open(os.path.join(d, "out"), "w")
    cmd = [binary[raced(prop, shard)], "-test.run", f"^Test{prop}_", "-test.timeout", "0", "-test.v"]
    if os.environ.get("VERIF_COVER"):
        cmd += ["-test.coverprofile", os.path.join(os.environ["VERIF_COVER"], f"{prop}-{shard}.cov")]
    p = subprocess.Popen(cmd, cwd=d, env=shard_env(prop, tier, seed, shard, d), stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    return p, d

FATAL = re.compile(r"VERIF-HANG|VERIF-MEMORY|fatal error: |DATA RACE|^panic: |goroutine stack exceeds|\[signal SIG", re.M)

def classify(rc, text):
    """none | rapid | fatal | error"""
    if rc == 0:
        return "none"
    if re.search(r"VERIF-HANG|VERIF-MEMORY", text):
        return "limit"
    if re.search(r"DATA RACE", text):
        return "fatal"
    if re.search(r"fatal error: out of memory|cannot allocate memory|runtime: failed to create new OS thread|no space left on device|too many open files", text):
        return "error"
    if re.search(r"fatal error: |goroutine stack exceeds|^panic: |\[signal SIG", text, re.M):
        # a crash of the process : only a matter of the code under test when it is on the stack
        return "fatal" if "soft.go/ecore" in text else "error"
    if re.search(r"^\s*--- FAIL: ", text, re.M):
        return "rapid"
    return "error"

def failing_test(text, prop):
    m = re.findall(r"--- FAIL: (Test\w+)", text) or re.findall(r"VERIF-(?:HANG|MEMORY) test=(Test\w+)", text) or re.findall(r"=== RUN\s+(Test\w+)", text)
    return m[-1] if m else "Test" + prop

def main():
    if sys.argv[1:] == ["--setup"]:
        s = tempfile.mkdtemp(prefix="verif-")
        try:
            build_one(False, s)
            build_one(True, s)
        finally:
            shutil.rmtree(s, ignore_errors=True)
        return 0
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, os.path.abspath(sys.argv[3]))
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return run(prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def run(prop, tier, seed, scratch, t0):
    binary = build(prop, scratch)
    shards = int(os.environ.get("VERIF_SHARDS", SHARDS))
    procs = [start(binary, prop, tier, seed, i, scratch) for i in range(shards)]
    deadline = t0 + BUDGET[tier]
    results, timeout = [], False
    for p, d in procs:
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            timeout = True
            p.kill(); p.wait(); rc = -9
        results.append((rc, d, open(os.path.join(d, "out"), errors="replace").read()))
    violations, errors = [], []
    known, notes = [], []
    for i, (rc, d, text) in enumerate(results):
        for l in text.splitlines():
            if l.startswith("KNOWN-FINDING:") and l not in known:
                known.append(l)
            if l.startswith("NOTE:") and l not in notes:
                notes.append(l)
        kind = classify(rc, text)
        if kind == "none" or (timeout and rc == -9):
            continue
        if kind == "limit" or kind == "error":
            # confirm : same shard, alone
            p, d2 = start(binary, prop, tier, seed, i, scratch, "-again")
            try:
                rc2 = p.wait(max(60, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc2 = -9
            text2 = open(os.path.join(d2, "out"), errors="replace").read()
            kind2 = classify(rc2, text2)
            if kind2 == "none":
                print(f"NOTE: shard {i} ended with {rc} ({kind}), not confirmed by a second run")
                # the second run replaces the first
                shutil.rmtree(d, ignore_errors=True); os.rename(d2, d)
                continue
            if kind2 == "error" or rc2 == -9:
                errors.append((i, rc2, text2)); continue
            rc, d, text, kind = rc2, d2, text2, kind2
        violations.append((i, kind, d, text))
    for l in known + notes:
        print(l)
    evidence(prop, tier, seed, scratch, t0, len(violations))
    if violations:
        replays = []
        for i, kind, d, text in violations:
            r = save_replay(prop, tier, seed, i, kind, d, text)
            replays.append(r)
        i, kind, d, text = violations[0]
        tail = [l for l in text.splitlines() if not l.startswith("KNOWN-FINDING") and "/round" not in l]
        cut = next((n for n, l in enumerate(tail) if "--- FAIL" in l or FATAL.search(l)), max(0, len(tail) - 60))
        print("\n".join(tail[max(0, cut - 5):cut + 60])[:8000])
        print(f"VIOLATION property={prop} replay={replays[0]}")
        return 1
    if errors:
        i, rc, text = errors[0]
        print(text[-4000:])
        print(f"ERROR: shard {i} of {prop} ended with status {rc}")
        return 2
    if timeout:
        print(f"ERROR: {prop} {tier} did not end within its time budget (inconclusive)")
        return 3
    print(f"{prop} {tier}: held ({time.time()-t0:.0f} s)")
    return 0

def save_replay(prop, tier, seed, shard, kind, d, text):
    dest = os.path.join(HERE, "replays", prop)
    os.makedirs(dest, exist_ok=True)
    test = failing_test(text, prop)
    files = sorted(glob.glob(os.path.join(d, "testdata", "rapid", "*", "*.fail")))
    if kind == "rapid" and files:
        f = files[0]
        test = os.path.basename(os.path.dirname(f))
        path = os.path.join(dest, f"{test}--{seed}-{shard}.fail")
        shutil.copy(f, path)
        return path
    path = os.path.join(dest, f"{test}--{seed}-{shard}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "test": test, "tier": tier, "seed": seed, "shard": shard, "kind": kind, "output": text[-20000:]}, f, indent=1)
    return path

def replay(prop, path):
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary = build(prop, scratch)
        name = os.path.basename(path)
        test = name.split("--")[0]
        tier, seed, shard = "quick", 1, SHARDS - 1
        if path.endswith(".json"):
            r = json.load(open(path))
            tier, seed, shard = r["tier"], r["seed"], r["shard"]
        cmd = [binary[raced(prop, shard)], "-test.run", f"^{test}$", "-test.v", "-test.timeout", "0"]
        if not path.endswith(".json"):
            cmd += ["-rapid.failfile", path]
        d = os.path.join(scratch, "replay"); os.makedirs(d)
        r = subprocess.run(cmd, cwd=d, env=shard_env(prop, tier, seed, shard, d), stdin=subprocess.DEVNULL)
        if r.returncode:
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("replay passes")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def evidence(prop, tier, seed, scratch, t0, nviol):
    stats = {}
    for f in sorted(glob.glob(os.path.join(scratch, "shard*", "stats", "*.json"))):
        try:
            s = json.load(open(f))
        except Exception:
            continue
        x = stats.setdefault(s["test"], {"rule": s["rule"], "evals": 0, "nt": 0, "h": set(), "labels": {}, "samples": []})
        x["evals"] += s["evals"]; x["nt"] += s["nontrivial"]; x["h"].update(s["hashes"] or [])
        for k, v in (s["labels"] or {}).items():
            x["labels"][k] = x["labels"].get(k, 0) + v
        if len(x["samples"]) < 2:
            x["samples"] += (s["samples"] or [])[:1]
    cov = {
        "evaluations": sum(x["evals"] for x in stats.values()),
        "distinct_nontrivial": sum(len(x["h"]) for x in stats.values()),
        "rule": " | ".join(f"{t}: {x['rule']}" for t, x in sorted(stats.items())) or "no test ran",
        "samples": [{"test": t, "case": s} for t, x in sorted(stats.items()) for s in x["samples"]] or ["none"],
        "tests": {t: {"evaluations": x["evals"], "nontrivial": x["nt"], "distinct_nontrivial": len(x["h"]), "labels": dict(sorted(x["labels"].items()))} for t, x in sorted(stats.items())},
        "exhaustive": False,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["generated cases only: absence of violations outside them is not established",
                          "distinctness is measured on the textual trace of each case"],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

if __name__ == "__main__":
    sys.exit(main())
