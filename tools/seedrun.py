#!/usr/bin/env python3
"""seedrun.py [id...]: applies each seeded change to /repo, runs the check of its property, undoes it."""
import json, os, subprocess, sys, time
R = os.environ.get("SEED_REPO", "/repo")
C = os.environ.get("SEED_VERIF")     # a copy of /verif to run the checks from
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.check_output(["git", "-C", R, "status", "--porcelain"])
    t = time.time()
    try:
        if subprocess.call(["git", "-C", R, "apply", d + "/patch.diff"]):
            print(i, "DOES NOT APPLY"); continue
        r = subprocess.run([sys.executable, (C or V) + "/check.py", prop, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_REPO=R))
        hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
        print(i, prop, "CAUGHT" if r.returncode == 1 and hit else "MISSED rc=%d" % r.returncode, "%.0fs" % (time.time() - t), (hit or [""])[0][:150], flush=True)
        if not hit: print(r.stdout[-600:])
    finally:
        subprocess.call(["git", "-C", R, "checkout", "-q", "--", "."])
