"""Writes the table of planted bugs into DESIGN.md, between the two marks."""
import glob
import json
import os
import re

rows = ["| planted bug | property | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    cell = lambda t: re.sub(r"\s+", " ", t).replace("|", "\\|").strip()
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], cell(m["needs"]), cell(m["what_it_breaks"])))
p = "/verif/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- end of seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
