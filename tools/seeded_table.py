#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md.

tools/caught.tsv: planted bug, build and family of the property's quick check that reported it when last run.
"""
import glob, json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = dict(l.rstrip("\n").split("\t") for l in open(here + "/tools/caught.tsv"))
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    k = os.path.basename(os.path.dirname(d))
    cell = lambda x: str(x).replace("|", "/").replace("\n", " ")
    rows.append(f"| {k} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {caught.get(k, 'missed')} |")
p = here + "/DESIGN.md"
text = open(p).read()
mark = "<!-- planted bugs -->\n"
text = text.split(mark)[0] + mark + "\n".join(rows) + "\n"
open(p, "w").write(text)
