#!/usr/bin/env python3
"""show.py FILE...: prints the case of a replay file readably."""
import json, sys
def el(e):
    t = e["t"]
    if t == "ref": return e.get("nm") or e["n"]
    if t == "grp": return "(" + al(e["a"]) + ")"
    if t == "opt": return "[" + al(e["a"]) + "]"
    if t == "chr": return ("%s" if e["s"] else "") + '"' + "".join(map(chr, e["v"])) + '"'
    if t == "ser": return "%" + e["b"] + ".".join(e["d"])
    if t == "rng": return "%" + e["b"] + "-".join(e["d"])
    return "<" + e.get("x", "") + ">"
def rp(r):
    if r["mn"] == r["mx"] == 1: return el(r["e"])
    return "%d*%s" % (r["mn"], r["mx"] if r["mx"] >= 0 else "") + el(r["e"])
def al(a): return " / ".join(" ".join(rp(r) for r in c) for c in a)
for f in sys.argv[1:]:
    d = json.load(open(f)); c = d["case"]
    print(f, c["id"], "|", d["why"][:600])
    if "g" in c and isinstance(c["g"], dict):
        for n, a in c["g"].items(): print("   ", n, "=", al(a))
        print("   root", c.get("root"), "ins", [bytes(i) for i in c.get("ins", [])])
    for k in c:
        if k in ("src", "plain", "pretty"): print("   ", k, bytes(c[k]))
        elif k not in ("g", "nm", "ins", "root", "ask", "how", "id", "k", "rules"): print("   ", k, json.dumps(c[k])[:500])
