#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | what it breaks |", "|---|---|---|---|"]
cut = lambda s: s.replace("|", "/").replace("\n", " ")
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], cut(m["needs"]), cut(m["what_it_breaks"])))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
head = t.split("## Planted bugs (`seeded/`)")[0]
open(p, "w").write(head + "## Planted bugs (`seeded/`)\n\nEvery bug below is caught by the quick check of the property it is listed\nunder (written by `tools/seedtable.py`).\n\n" + "\n".join(rows) + "\n")
