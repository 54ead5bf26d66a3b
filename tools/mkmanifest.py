#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PLAN and not PLAN[i].get("off"):
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py " + i,
            thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique=PLAN[i].get("technique", "TLA+ specification checked with TLC; trace validation of the real code's recorded answers against it"),
            level="model_checking",
            level_note=PLAN[i].get("note", "Every recorded answer of the real code is decided by TLC on the specification's own definitions; exhaustive for the model instances, sampled (seeded) for the recorded histories. Trusts TLC, the recorder's encoding of public structures, and the hand-written specification.")))
    else:
        na.append(dict(property=i, reason="no check yet"))
m = dict(version=1, setup_cmd="bash bin/setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="none (only the public API and the shipped commands are used)", enable="nothing to enable", source_commits=[]),
         notes="See DESIGN.md. Checks rebuild the recorder from /repo's working tree on every run.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
