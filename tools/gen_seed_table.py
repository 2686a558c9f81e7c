#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f))
    rows.append("| `%s` | %s | %s |" % (n, m.get("caught_by", m["property"]), " ".join(m["needs"].split())))
s = open(V + "/DESIGN.md").read().split("\n")
i = s.index("|---|---|---|")
j = i + 1
while s[j].startswith("|"): j += 1
s[i + 1:j] = rows
open(V + "/DESIGN.md", "w").write("\n".join(s))
