#!/usr/bin/env python3
"""Has TLC enumerate a module of spec/ and writes vectors/OUT.gz.

  mkvectors.py SmallGrammars small [PARTS]     PARTS > 1 only does the first part (for trials)
  mkvectors.py ClassGrammars class
"""
import gzip, json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

def elem(e):
    t = e["t"]
    if t == "ref": return e["n"]
    if t == "grp": return "(" + alt(e["a"]) + ")"
    if t == "opt": return "[" + alt(e["a"]) + "]"
    if t == "chr": return ("%s" if e["s"] else "") + '"' + "".join(map(chr, e["v"])) + '"'
    if t == "ser": return "%x" + ".".join("%X" % v for v in e["v"])
    if t == "rng": return "%%x%X-%X" % (e["lo"], e["hi"])
    raise ValueError(t)
def rep(r):
    mn, mx = r["mn"], r["mx"]
    if mn == mx: p = "" if mn == 1 else str(mn)
    else: p = (str(mn) if mn else "") + "*" + (str(mx) if mx >= 0 else "")
    return p + elem(r["e"])
def alt(a): return " / ".join(" ".join(rep(r) for r in c) for c in a)

mod, name = sys.argv[1:3]
parts = sys.argv[3] if len(sys.argv) > 3 else "1"
p = subprocess.Popen(["java", "-Xss128m", "-XX:+UseParallelGC", "-Xmx8g", "-cp", JARS, "tlc2.TLC", "-workers", "8", "-metadir",
                      V + "/.work/mkvec", "-noGenerateSpecTE", "-config", mod + ".cfg", mod + ".tla"],
                     cwd=V + "/spec", env=dict(os.environ, PART="0", PARTS=parts), stdout=subprocess.PIPE, text=True)
lines, last = [], ""
for l in p.stdout:
    if l.startswith('"VEC '):
        d = json.loads(json.loads(l)[4:])
        lines.append(json.dumps(dict(g="".join("%s = %s\r\n" % (n, alt(a)) for n, a in sorted(d["g"].items())),
                                     w=d["w"], cyc=d["cyc"], prod=d["prod"], **({"ws": ["".join(map(chr, w)) for w in d["ws"]]} if "ws" in d else {})), separators=(",", ":")))
    elif "No error has been found" in l: last = "ok"
if p.wait() != 0 or last != "ok": sys.exit("TLC failed")
lines = sorted(set(lines))
os.makedirs(V + "/vectors", exist_ok=True)
out = V + "/vectors/" + (name + ".gz" if parts == "1" else "trial.gz")
with open(out, "wb") as f:
    with gzip.GzipFile(fileobj=f, mode="wb", mtime=0, filename="") as z:
        z.write(("\n".join(lines) + "\n").encode())
print(len(lines), "grammars,", os.path.getsize(out), "bytes")
