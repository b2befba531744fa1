#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and
tools/caught.json ({bug: [checks that report it]})."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(H, "tools/caught.json")))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(H, "seeded/*/meta.json"))):
    i = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"].replace("|", "\\|"), " ".join(caught.get(i, [])) or "**none**"))
p = os.path.join(H, "DESIGN.md")
t = open(p).read()
a, b = "<!-- seeded:begin -->\n", "<!-- seeded:end -->"
i, j = t.index(a) + len(a), t.index(b)
open(p, "w").write(t[:i] + "\n".join(rows) + "\n" + t[j:])
