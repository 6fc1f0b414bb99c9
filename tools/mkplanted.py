"""Rewrite the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and seeded/RESULTS."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(l.split(None, 1) for l in open(os.path.join(H, "tools", "caught.txt")) if l.strip())
rows = ["| change | property | needs | caught by (quick tier) |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], " ".join(m["needs"].split()), res.get(d, "?").strip()))
s = open(os.path.join(H, "DESIGN.md")).read(); k = "## Planted changes and who catches them\n"
open(os.path.join(H, "DESIGN.md"), "w").write(s[:s.index(k)] + k + "\n" + "\n".join(rows) + "\n")
