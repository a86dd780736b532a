"""Regenerates the table of planted bugs at the end of DESIGN.md."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
head = open(p).read().split("| planted bug | property |")[0]
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    rows.append("| %s | %s | %s | %s quick |" % (i, m["property"], m["needs"].replace("|", "/"), m["property"]))
open(p, "w").write(head + "\n".join(rows) + "\n")
