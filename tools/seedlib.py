"""Makes planted bugs: edits a scratch copy of /repo, confirms that it builds and
passes the stable tests, that the demonstration passes without and fails with the
change, and keeps it under seeded/<id>/."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Runs demo.go against the library in the current directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp "$here/demo.go.txt" "$t/main.go"
cp "$repo/go.sum" "$t/go.sum"
cat > "$t/go.mod" <<EOM
module demo

go 1.24.4

require github.com/pandatix/go-abnf v0.0.0

replace github.com/pandatix/go-abnf => $repo
EOM
cd "$t" && REPO="$repo" timeout 120 go run .
'''
HEAD = '''package main

import (
	"fmt"
	"os"

	goabnf "github.com/pandatix/go-abnf"
%s)

func check(ok bool, format string, a ...any) {
	if !ok {
		fmt.Printf("FAIL: "+format+"\\n", a...)
		os.Exit(1)
	}
}

var _ = goabnf.ABNF

func main() {
%s
}
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def own_lines():
    base = sh("git log --format=%h | tail -1", "/repo").stdout.strip()
    return {l[1:].strip() for l in sh("git diff %s HEAD" % base, "/repo").stdout.split("\n") if l.startswith("+")}

def mkseed(id, prop, edits, body, needs, breaks, imports=(), demo_sh=None, demo_go=None, force=False):
    out = os.path.join(V, "seeded", id)
    if os.path.exists(out) and not force:
        print(id, "exists"); return
    wt = "/tmp/seed-" + id
    shutil.rmtree(wt, ignore_errors=True)
    shutil.copytree("/repo", wt, symlinks=True)
    tmp = "/tmp/seedout-" + id
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "BAD EDIT: %d occurrences in %s of %r" % (s.count(old), f, old)); return
            open(p, "w").write(s.replace(old, new))
        r = sh("git diff", wt)
        open(os.path.join(tmp, "patch.diff"), "w").write(r.stdout)
        if demo_go is None:
            demo_go = HEAD % ("".join('\t"%s"\n' % i for i in imports), body)
        open(os.path.join(tmp, "demo.go.txt"), "w").write(demo_go)
        open(os.path.join(tmp, "demo.sh"), "w").write(demo_sh or DEMO)
        os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(tmp, "meta.json"), "w"), indent=1)
        own = own_lines()
        if not any(l.startswith("-") and not l.startswith("---") and l[1:].strip() and not l[1:].strip().startswith("//") and l[1:].strip() not in own
                   for l in r.stdout.split("\n")):
            print(id, "CHANGES NO LINE OF THE ORIGINAL"); return
        vp = "set -e; . <(sed 's#cd /repo#cd %s#' /opt/vp/env.sh); " % wt
        r = sh(["bash", "-c", vp + "go build ./... ./cmd/pap/..."], wt)
        if r.returncode: print(id, "NO BUILD", r.stdout[-800:]); return
        r = sh(["bash", "-c", vp + "go test -json -vet=off -count=1 -timeout 10m ./... ./cmd/pap/... > /tmp/seed-%s.gojson || true; python3 /opt/vp/results.py /tmp/seed-%s.json gojson:/tmp/seed-%s.gojson; rm -f /tmp/seed-%s.gojson" % (id, id, id, id)], wt)
        b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seed-%s.json" % id))
        def passed(x):
            for k in ("passed", "pass", "stable"):
                if k in x: return set(x[k])
            return set(x)
        miss = passed(b) - passed(o)
        os.unlink("/tmp/seed-%s.json" % id)
        if miss: print(id, "TESTS CATCH IT", sorted(miss)[:5]); return
        r1 = sh("bash %s/demo.sh" % tmp, "/repo", timeout=300)
        r2 = sh("bash %s/demo.sh" % tmp, wt, timeout=300)
        if r1.returncode != 0: print(id, "DEMO FAILS ON CLEAN", r1.stdout[-800:]); return
        if r2.returncode == 0: print(id, "DEMO DOES NOT SEE IT", r2.stdout[-800:]); return
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        print(id, "KEPT;", r2.stdout.strip()[:200])
    finally:
        shutil.rmtree(wt, ignore_errors=True); shutil.rmtree(tmp, ignore_errors=True)
