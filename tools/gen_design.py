"""Fills the generated table of planted changes into DESIGN.md (between the two marks)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], m["property"]))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeds:begin -->", "<!-- seeds:end -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
