"""Writes the table of planted bugs into DESIGN.md, between its two markers."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
also = {}
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    files = re.findall(r"^\+\+\+ b/(\S+)", open(f"{root}/seeded/{d}/patch.diff").read(), re.M)
    cut = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {d} | {m['property']} | {', '.join(files)} | {cut(m['what_it_breaks'])} |")
text = open(root + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
i, j = text.index(a) + len(a), text.index(b)
tab = "| bug | caught by | file | what it breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(root + "/DESIGN.md", "w").write(text[:i] + tab + text[j:])
print(len(rows))
