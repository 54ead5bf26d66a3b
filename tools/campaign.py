#!/usr/bin/env python3
"""Mutation campaign: which first-order mutants pass the repository's tests, and
which of those the checks miss.

  campaign.py tests MUTANTS.nd OUT.nd N SEED WORKERS     keep mutants that pass the tests
  campaign.py checks IN.nd OUT.nd WORKERS [LIMIT]         run the checks against them

Works in copies under /tmp/mut, bound over /repo and /verif in a mount namespace
of their own.
"""
import json, os, random, shutil, subprocess, sys, threading, queue, time

FILES = {
 "abnf.go": "C10 C07 C17", "ast.go": "C12 C21", "bsr.go": "C03 C04 C02 C18", "codegen.go": "C05 C18", "dag.go": "C17 C13 C06",
 "errors.go": "C19 C08 C20", "fuzz.go": "C14 C15 C21", "generate.go": "C11 C21", "grammar.go": "C07 C08 C10 C19",
 "leftrec.go": "C01", "option.go": "C08", "recognize.go": "C01", "regex.go": "C06 C18", "rules.go": "C01 C17",
 "sppf.go": "C03 C04 C02 C18 C19", "transition_graph.go": "C13 C16 C14 C15 C18", "utils.go": "C01 C08 C17 C11 C13 C07",
}
BASE = "/tmp/mut/base"   # the tree mutants are made of; /repo may change meanwhile

def checks_of(f):
    return FILES.get(f, "C20").split()

def prepare(k):
    d = "/tmp/mut/w%d" % k
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if not os.path.exists(BASE):
        os.makedirs("/tmp/mut", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", BASE], check=True)
    subprocess.run(["cp", "-a", BASE, d + "/repo"], check=True)
    os.makedirs(d + "/verif")
    subprocess.run("cd /verif && cp -a bin harness spec vectors known-findings.jsonl properties.jsonl " + d + "/verif/", shell=True, check=True)
    return d

def apply(d, m):
    p = os.path.join(d, "repo", m["file"])
    src = open(os.path.join(BASE, m["file"]), "rb").read()
    new = src[:m["off"]] + m["new"].encode() + src[m["end"]:]
    open(p, "wb").write(new)
    return p

def revert(d, m):
    shutil.copy(os.path.join(BASE, m["file"]), os.path.join(d, "repo", m["file"]))

def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="")
    e.pop("GOWORK", None)
    return e

def run(cmd, cwd, t):
    p = subprocess.Popen(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -1, "timeout"

def tests(d, m):
    apply(d, m)
    try:
        r, o = run(["go", "build", "./..."], d + "/repo", 120)
        if r: return "nobuild"
        r, o = run(["bash", "-c", "ulimit -v 12000000; go test -failfast -vet=off -count=1 -timeout 60s . ./cmd/..."], d + "/repo", 100)
        return "pass" if r == 0 else "killed"
    finally:
        revert(d, m)

def checks(d, m):
    apply(d, m)
    res = {}
    try:
        for c in checks_of(m["file"]):
            r, o = run(["unshare", "-m", "sh", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec python3 bin/check.py %s" % (d, d, c)], "/", 900)
            res[c] = r
            if r == 1:
                m["why"] = o[-400:]
                break
            if r not in (0, 1):
                m["err_" + c] = o[-600:]
        m["res"] = res
        return "caught" if 1 in res.values() else ("missed" if all(v == 0 for v in res.values()) else "error")
    finally:
        revert(d, m)

def main():
    mode = sys.argv[1]
    ms = [json.loads(l) for l in open(sys.argv[2])]
    out = sys.argv[3]
    if mode == "tests":
        n, seed, workers = int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6])
        random.seed(seed); random.shuffle(ms); ms = ms[:n]
        f = tests
    else:
        workers = int(sys.argv[4]); f = checks
        if len(sys.argv) > 5: ms = ms[:int(sys.argv[5])]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            x = json.loads(l); done.add((x["file"], x["off"], x["end"], x["new"]))
    q = queue.Queue()
    for m in ms:
        if (m["file"], m["off"], m["end"], m["new"]) not in done: q.put(m)
    lock = threading.Lock()
    def work(k):
        d = prepare(k)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: break
            v = f(d, m)
            with lock:
                if mode == "checks" or v == "pass":
                    m["verdict"] = v
                    open(out, "a").write(json.dumps(m) + "\n")
                print(v, m["file"], m["line"], repr(m["old"][:40]), "->", repr(m["new"][:40]), m.get("res", ""), flush=True)
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
