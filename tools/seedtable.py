#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md; MISSED ids may be given as arguments."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it breaks | needs | its check |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"),
                                              "missed" if i in sys.argv[1:] else "catches it"))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- seeds -->\n).*(<!-- /seeds -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], s, flags=re.S)
open(p, "w").write(s)
