#!/usr/bin/env python3
"""Apply each planted bug to /repo in turn and run its property's quick check (development aid;
no check uses this). usage: runseeds.py [seed id ...]"""
import json, os, subprocess, sys, time
V = "/verif"; S = V + "/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
man = {c["property_id"] if "property_id" in c else c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
for i in ids:
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]
    c = man.get(p)
    if not c: print(i, p, "NO CHECK"); continue
    assert not subprocess.run("git -C /repo status --short", shell=True, capture_output=True, text=True).stdout
    subprocess.check_call(["git", "-C", "/repo", "apply", f"{S}/{i}/patch.diff"])
    t = time.time()
    try:
        r = subprocess.run(c["quick_cmd"] if "quick_cmd" in c else c["quick"], shell=True, cwd=V, capture_output=True, text=True, timeout=900,
                           env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(i, p, "CAUGHT" if r.returncode == 1 and any(f"property={p} " in l for l in v) else "MISSED", "rc", r.returncode, "%.0fs" % (time.time() - t), (v or r.stdout.splitlines()[-2:] or r.stderr.splitlines()[-2:])[0:1], flush=True)
    except subprocess.TimeoutExpired:
        print(i, p, "TIMEOUT", flush=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
