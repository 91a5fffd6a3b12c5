"""Writes the table of planted bugs at the end of DESIGN.md (from seeded/*/meta.json)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | check | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    cell = lambda x: str(x).replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], cell(m["what_it_breaks"]), cell(m["needs"])))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
open(p, "w").write(s[:s.index("<!-- table -->")] + "<!-- table -->\n" + "\n".join(rows) + "\n")
