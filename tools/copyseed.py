#!/usr/bin/env python3
"""copyseed.py [-j N] [-p PROP] ID...: as runseed.py, on scratch copies of /repo and /verif,
so that several can run at once and /repo stays untouched (experiments only)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def opt(name, d):
    if name in args:
        i = args.index(name); v = args[i + 1]; del args[i:i + 2]; return v
    return d
args = sys.argv[1:]
J, P = int(opt("-j", "2")), opt("-p", "")
ids = args or sorted(os.listdir(os.path.join(V, "seeded")))
def one(i):
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    base = os.path.join(V, ".work", "exp-" + i)
    shutil.rmtree(base, ignore_errors=True)
    try:
        shutil.copytree("/repo", base + "/repo", symlinks=True)
        subprocess.run(["git", "-C", base + "/repo", "checkout", "-q", "--", "."])
        r = subprocess.run(["git", "-C", base + "/repo", "apply", os.path.join(d, "patch.diff")])
        if r.returncode: return i + " DOES NOT APPLY"
        os.makedirs(base + "/verif")
        for x in ("bin", "harness", "spec", "vectors", "known-findings.jsonl", "known"):
            s = os.path.join(V, x)
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, base + "/verif/" + x)
        for f in ("harness/go.mod", "harness/cli.go"):
            p = base + "/verif/" + f
            t = open(p).read()
            t = t.replace("=> /repo", "=> " + base + "/repo").replace('repoDir = "/repo"', 'repoDir = "%s/repo"' % base)
            open(p, "w").write(t)
        res = []
        for p in (P.split(",") if P else [m["property"]]):
            r = subprocess.run(["python3", base + "/verif/bin/check.py", p], capture_output=True, text=True)
            res.append(p + (":CAUGHT " + r.stderr.strip()[:200].replace("\n", " ") if r.returncode == 1 else ":missed" if r.returncode == 0 else ":ERROR " + r.stderr[-400:]))
        return i + " " + m["property"] + " | " + "; ".join(res)
    finally:
        shutil.rmtree(base, ignore_errors=True)
with ThreadPoolExecutor(J) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
