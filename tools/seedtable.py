"""Fills the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/")))
p = V + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"\| bug \|.*?(?=\n\n)", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
