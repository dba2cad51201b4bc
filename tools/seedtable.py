#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(H + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], m.get("caught_by", m["property"])))
p = H + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"(\|---\|---\|---\|---\|\n)(\|.*\n)+", lambda k: k[1] + "\n".join(rows) + "\n", s, count=1)
open(p, "w").write(s)
