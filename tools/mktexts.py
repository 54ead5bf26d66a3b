#!/usr/bin/env python3
"""Has TLC enumerate spec/MODULE.tla up to MAXLEN and writes vectors/OUT.gz.

  mktexts.py ShortTexts 3 texts      mktexts.py RuleList 3 rules
"""
import gzip, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
mod, maxlen, out = sys.argv[1:4]
p = subprocess.Popen(["java", "-Xss128m", "-XX:+UseParallelGC", "-Xmx8g", "-cp", JARS, "tlc2.TLC", "-workers", "8", "-metadir",
                      V + "/.work/mktx", "-noGenerateSpecTE", "-config", mod + ".cfg", mod + ".tla"],
                     cwd=V + "/spec", env=dict(os.environ, MAXLEN=maxlen), stdout=subprocess.PIPE, text=True)
lines, last, rest = set(), "", []
for l in p.stdout:
    if l.startswith('"VEC '):
        d = json.loads(json.loads(l)[4:])
        d["src"] = bytes(d["src"]).decode("latin-1")
        lines.add(json.dumps(d, separators=(",", ":")))
    else:
        rest.append(l)
        if "No error has been found" in l: last = "ok"
if p.wait() != 0 or last != "ok": sys.exit("TLC failed\n" + "".join(rest[-40:]))
path = V + "/vectors/%s.gz" % out
with open(path, "wb") as f:
    with gzip.GzipFile(fileobj=f, mode="wb", mtime=0, filename="") as z:
        z.write(("\n".join(sorted(lines)) + "\n").encode())
print(len(lines), "lines,", os.path.getsize(path), "bytes")
