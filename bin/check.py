#!/usr/bin/env python3
"""Runs the check of one property.

  check.py PROP [--tier quick|thorough] [--seed N]
  check.py PROP --replay FILE

Records events of the real code (harness/, built from /repo's working tree),
has TLC validate them against the specification (spec/), replays behaviours
generated from the specification, and writes evidence/PROP.json.

Exit status: 0 the property held on everything explored; 1 it does not, with a
line VIOLATION property=<id> replay=<path>; 2 the check itself failed.
"""
import argparse, concurrent.futures, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from plan import PLAN, MODELS  # noqa: E402

SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8
CASE_LIMIT = 60           # seconds one call sequence of the real code may take
HANG = 42                 # exit status of the recorder when the real code hangs


class CheckError(Exception):
    pass


class EvalError(CheckError):
    """The specification cannot make sense of an event."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1",
             GOFLAGS_EXTRA="")
    return e


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def build(work, race=False):
    out = os.path.join(work, "drv-race" if race else "drv")
    cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
    r = run(cmd, cwd=os.path.join(VERIF, "harness"), env=goenv())
    if r.returncode != 0:
        raise CheckError("the recorder does not build:\n" + r.stderr[-4000:])
    return out


def limits():
    os.setsid()


def tlc(module, env, work, tag, workers=8, timeout=800, extra=(), heap="6g"):
    meta = os.path.join(work, "meta-" + tag)
    e = dict(os.environ)
    e.update(env)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss256m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", module + ".cfg",
           *extra, module + ".tla"]
    t0 = time.time()
    try:
        r = run(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not end in time on " + tag)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    if "Error: Evaluating" in r.stdout or "Error: TLC threw an unexpected exception" in r.stdout or \
       "The error occurred when TLC was evaluating" in r.stdout or "Attempted to" in r.stdout:
        raise EvalError("TLC cannot evaluate %s:\n%s" % (tag, r.stdout[-3000:]))
    if r.returncode != 0 or not m or "Model checking completed. No error" not in r.stdout:
        raise CheckError("TLC failed on %s (status %d):\n%s\n%s" % (tag, r.returncode, r.stdout[-6000:], r.stderr[-2000:]))
    return r.stdout, int(m[-1][0]), int(m[-1][1]), time.time() - t0


def crashed(rc, err):
    """A status that means the real code took the recorder down."""
    return rc == HANG or rc in (2, -6, -9, -11)


class Checker:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.plan = PLAN[prop]
        self.viol = []           # (description, case)
        self.known = []
        self.states = self.trans = self.validated = self.replayed = 0
        self.samples = []
        self.counters = {}
        self.models = []
        self.findings = self.load_findings()

    # -- known findings --------------------------------------------------
    def load_findings(self):
        out = []
        p = os.path.join(VERIF, "known-findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and not line.startswith("#") and not line.startswith("fixed:"):
                    f = json.loads(line)
                    if f["property"] == self.prop:
                        out.append(f)
        return out

    # -- recording -------------------------------------------------------
    def shard(self, drv, sub, seed, n, i, tag, timeout):
        out = os.path.join(self.work, "%s.%d.nd" % (tag, i))
        cur = os.path.join(self.work, "%s.%d.cur" % (tag, i))
        scratch = os.path.join(self.work, "%s.%d.d" % (tag, i))
        os.makedirs(scratch, exist_ok=True)
        cmd = [drv, "record", "-prop", sub, "-seed", str(seed), "-n", str(n), "-shard", str(i),
               "-shards", str(SHARDS), "-out", out, "-cur", cur, "-scratch", scratch]
        env = goenv()
        env["VERIF_CASE_LIMIT"] = str(CASE_LIMIT)
        env["GOMEMLIMIT"] = "2500MiB"
        env["GORACE"] = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
        try:
            r = run(cmd, timeout=timeout, env=env, preexec_fn=self.memlimit(drv))
        except subprocess.TimeoutExpired:
            raise CheckError("recording of %s did not end in time" % tag)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        return r, out, cur

    def memlimit(self, drv):
        if "race" in drv:
            return None
        def f():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        return f

    def record(self, drv, sub, seed, n, tag, timeout=700):
        """Runs the recorder; returns the event lines, and violations met on the way."""
        lines = []
        with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
            futs = [ex.submit(self.shard, drv, sub, seed, n, i, tag, timeout) for i in range(SHARDS)]
            res = [f.result() for f in futs]
        for i, (r, out, cur) in enumerate(res):
            if r.returncode == HANG and os.path.exists(cur) and not self.reproduces(drv, sub, cur, tag):
                # slow, not stuck: once more, on its own
                r, out, cur = self.shard(drv, sub, seed, n, i, tag, timeout)
            if os.path.exists(out):
                with open(out) as f:
                    part = f.read().split("\n")
                if r.returncode != 0:
                    part = part[:-1]          # possibly a cut line
                for l in part:
                    if l:
                        lines.append(l)
            if r.returncode == 66 or "WARNING: DATA RACE" in r.stderr:
                case = json.load(open(cur))
                self.viol.append(("data race:\n" + r.stderr[:3000], case))
            elif r.returncode != 0:
                if not crashed(r.returncode, r.stderr) or not os.path.exists(cur):
                    raise CheckError("the recorder failed (%d): %s" % (r.returncode, r.stderr[-3000:]))
                case = json.load(open(cur))
                if self.reproduces(drv, sub, cur, tag):
                    what = "hang" if r.returncode == HANG else "crash"
                    self.viol.append(("%s of the real code: %s" % (what, r.stderr[:600]), case))
                else:
                    raise CheckError("the recorder ended with %d, not reproduced: %s" % (r.returncode, r.stderr[-2000:]))
        return lines

    def reproduces(self, drv, sub, cur, tag):
        out = os.path.join(self.work, tag + ".again.nd")
        scratch = os.path.join(self.work, tag + ".again.d")
        os.makedirs(scratch, exist_ok=True)
        env = goenv()
        env["VERIF_CASE_LIMIT"] = str(CASE_LIMIT)
        env["GOMEMLIMIT"] = "2500MiB"
        try:
            r = run([drv, "one", "-prop", sub, "-in", cur, "-out", out, "-scratch", scratch], env=env,
                    timeout=CASE_LIMIT * 3, preexec_fn=self.memlimit(drv))
        except subprocess.TimeoutExpired:
            return True
        return crashed(r.returncode, r.stderr)

    # -- validating ------------------------------------------------------
    def validate(self, lines, tag):
        if not lines:
            return
        path = os.path.join(self.work, tag + ".cases.nd")
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
        try:
            out, gen, dist, secs = tlc("Trace", {"CASES": path}, self.work, tag)
        except EvalError as e:
            # an event outside of what the specification can even compare: find it
            while len(lines) > 1:
                half = lines[:len(lines) // 2]
                with open(path, "w") as f:
                    f.write("\n".join(half) + "\n")
                try:
                    tlc("Trace", {"CASES": path}, self.work, tag + "b")
                    lines = lines[len(lines) // 2:]
                except EvalError as e2:
                    lines, e = half, e2
            self.viol.append(("not an event of the specification: " + str(e)[-1500:], json.loads(lines[0])))
            return
        self.states += dist
        self.trans += gen
        self.validated += len(lines)
        os.unlink(path)
        lanes = min(64, len(lines))
        if dist != len(lines) + lanes:
            raise CheckError("TLC consumed %d events out of %d" % (dist - lanes, len(lines)))
        byid = None
        for m in re.finditer(r'^"REJECTED (.*)"$', out, re.M):
            rej = json.loads(json.loads('"' + m.group(1) + '"'))
            if byid is None:
                byid = {}
                for l in lines:
                    c = json.loads(l)
                    byid[c["id"]] = c
            case = byid[rej["id"]]
            kf = self.is_known(case, rej["why"])
            if kf:
                self.known.append(kf)
            else:
                self.viol.append((rej["why"], case))
        for l in lines:
            try:
                k = json.loads(l)
            except ValueError:
                raise CheckError("unreadable event: " + l[:200])
            self.counters[k["k"]] = self.counters.get(k["k"], 0) + 1
            if len(self.samples) < 3 and len(l) < 1500 and (zlib.crc32(k["id"].encode()) % 50 == 0 or len(self.samples) < 1):
                self.samples.append(k)

    def is_known(self, case, why):
        for f in self.findings:
            if f.get("case") == case["id"] and (not f.get("why") or f["why"] in why):
                return f
        return None

    # -- whole -----------------------------------------------------------
    def main(self):
        quick = self.tier == "quick"
        drv = None
        t0 = time.time()
        self.sub, self.race = self.prop, False
        for step in self.plan["steps"]:
            kind = step["do"]
            if kind == "record":
                race = step.get("race", False)
                drv = build(self.work, race)
                rounds = 1 if quick else step.get("rounds", 6)
                budget = step.get("seconds", 420)
                ts = time.time()
                for k in range(rounds):
                    if k and time.time() - ts > budget:
                        break
                    seed = self.seed if k == 0 else self.seed * 7919 + k
                    n = step["n"] if quick else step.get("N", step["n"] * 3)
                    sub = step.get("sub", self.prop)
                    self.sub, self.race = sub, race
                    tag = "%s-%s-%d" % (sub, "r" if race else "s", k)
                    lines = self.record(drv, sub, seed, n, tag)
                    if not step.get("novalidate"):
                        for off in range(0, len(lines), 20000):
                            self.validate(lines[off:off + 20000], "%s-%d" % (tag, off))
                    if self.viol:
                        break
            elif kind == "model":
                if quick and not step.get("quick", False):
                    continue
                name = step["name"]
                out, gen, dist, secs = tlc(name, step.get("env", {}), self.work, "model-" + name, timeout=step.get("timeout", 600))
                self.states += dist
                self.trans += gen
                self.models.append(dict(model=name, states=dist, transitions=gen, wall_s=round(secs, 1)))
            elif kind == "vectors":
                drv = build(self.work)
                self.sub, self.race = self.prop, False
                self.vectors(drv, step)
            if self.viol:
                break
        return time.time() - t0

    def vectors(self, drv, step):
        """Replays behaviours generated from the specification (vectors/*.gz)."""
        files = sorted(glob.glob(os.path.join(VERIF, "vectors", step["glob"])))
        if not files:
            raise CheckError("no vectors " + step["glob"])
        out = os.path.join(self.work, "vec.nd")
        procs = []
        def one(i):
            o = "%s.%d" % (out, i)
            cur = os.path.join(self.work, "vec.%d.cur" % i)
            env = goenv()
            env["VERIF_CASE_LIMIT"] = str(CASE_LIMIT)
            env["GOMEMLIMIT"] = "2500MiB"
            cmd = [drv, "vectors", "-prop", self.prop, "-in", ",".join(files), "-out", o, "-shard", str(i), "-shards", str(SHARDS), "-cur", cur,
                   "-seed", str(self.seed), "-stride", str(step.get("stride", 1) if self.tier == "quick" else 1)]
            r = run(cmd, env=env, timeout=800, preexec_fn=self.memlimit(drv))
            return r, o, cur
        with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
            res = list(ex.map(one, range(SHARDS)))
        for r, o, cur in res:
            if os.path.exists(o):
                for l in open(o):
                    l = l.strip()
                    if l:
                        c = json.loads(l)
                        kf = self.is_known(c, c["why"])
                        if kf:
                            self.known.append(kf)
                        else:
                            self.viol.append((c["why"], c))
            if r.returncode != 0:
                if not crashed(r.returncode, r.stderr) or not os.path.exists(cur):
                    raise CheckError("the replay failed (%d): %s" % (r.returncode, r.stderr[-3000:]))
                case = json.load(open(cur))
                if not self.reproduces(drv, self.prop, cur, "vec"):
                    raise CheckError("the replay ended with %d, not reproduced" % r.returncode)
                self.viol.append(("crash or hang of the real code: " + r.stderr[:600], case))
            else:
                s = json.loads(r.stdout.strip().splitlines()[-1])
                self.replayed += s["cases"]
                for k, v in s.get("counters", {}).items():
                    self.counters[k] = self.counters.get(k, 0) + v

    def evidence(self, wall):
        cov = dict(states=self.states, transitions=self.trans,
                   traces_validated_against_impl=self.validated + self.replayed,
                   by_kind=self.counters, samples=self.samples[:3] or ["(no sample)"])
        if self.replayed:
            cov["of_which_generated_from_the_spec_and_replayed"] = self.replayed
        if self.models:
            cov["models"] = self.models
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  wall_s=round(wall, 2), violations=len(self.viol), assumptions=self.plan.get("assumptions", []))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def replay(prop, path, work):
    """Runs one case of a replay file on the real code again, and validates it."""
    rep = json.load(open(path))
    case = rep["case"]
    ck = Checker(prop, "quick", 1, work)
    drv = build(work, race=rep.get("race", False))
    p = os.path.join(work, "one.json")
    json.dump(case, open(p, "w"))
    out = os.path.join(work, "one.nd")
    scratch = os.path.join(work, "one.d")
    os.makedirs(scratch, exist_ok=True)
    env = goenv()
    env["VERIF_CASE_LIMIT"] = str(CASE_LIMIT)
    r = run([drv, "one", "-prop", rep.get("sub", prop), "-in", p, "-out", out, "-scratch", scratch], env=env, timeout=200)
    if r.returncode != 0:
        print("the real code crashed or hung (status %d)\n%s" % (r.returncode, r.stderr[-1500:]))
        return 1
    lines = [l for l in open(out).read().split("\n") if l]
    ck.validate(lines, "one")
    for why, c in ck.viol:
        print("rejected by the specification:", why)
    if not ck.viol:
        print("accepted by the specification")
    return 1 if ck.viol else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.makedirs(os.path.join(VERIF, ".work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=a.prop + "-", dir=os.path.join(VERIF, ".work"))
    try:
        if a.replay:
            return replay(a.prop, a.replay, work)
        ck = Checker(a.prop, a.tier, a.seed, work)
        wall = ck.main()
        ck.evidence(wall)
        seen = set()
        for f in ck.known:
            if f["what"] not in seen:
                seen.add(f["what"])
                print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))
        if ck.viol:
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            for i, (why, case) in enumerate(ck.viol[:5]):
                p = os.path.join(d, "%s-%d.json" % (a.prop, i))
                json.dump(dict(property=a.prop, why=why, case=case, sub=ck.sub, race=ck.race), open(p, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (a.prop, p))
                log("  ", why[:800])
            return 1
        print("OK property=%s tier=%s seed=%d events=%d vectors=%d states=%d wall=%.1fs" %
              (a.prop, a.tier, a.seed, ck.validated, ck.replayed, ck.states, wall))
        return 0
    except CheckError as e:
        log("CHECK ERROR:", e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
