#!/usr/bin/env python3
"""runseed.py [-a] ID...: applies each planted bug to /repo, runs the check of its
property (-a: every check), and undoes it."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN
args = sys.argv[1:]
allp = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout == ""
    r = subprocess.run(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    if r.returncode: print(i, "DOES NOT APPLY"); continue
    res = []
    try:
        for p in (sorted(PLAN) if allp else [m["property"]]):
            if p not in PLAN: res.append(p + ":-"); continue
            r = subprocess.run(["python3", os.path.join(V, "bin/check.py"), p], capture_output=True, text=True)
            if r.returncode == 1: res.append(p + ":CAUGHT " + r.stderr.strip().split("\n")[0][:150])
            elif r.returncode == 0:
                if not allp: res.append(p + ":missed")
            else: res.append(p + ":ERROR " + r.stderr[-400:])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    print(i, m["property"], "|", "; ".join(res), flush=True)
