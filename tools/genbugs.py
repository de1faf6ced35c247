#!/usr/bin/env python3
"""Rewrites the section of DESIGN.md that lists the planted bugs, from seeded/*/meta.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## Planted bugs and the checks that catch them"
rows = []
for i in sorted(os.listdir(H + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (H, i)))
    rows.append((m["property"], i, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
rows.sort()
t = MARK + "\n\nEach is caught by the quick check of the property named (one bug may break others as well).  They were written from the\nproperties and the code; those that a check missed at first are the reason for many of the alphabets above.\n\n| check | bug | needs | breaks |\n|---|---|---|---|\n"
t += "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = H + "/DESIGN.md"
s = open(p).read()
k = s.find(MARK)
if k >= 0:
    e = s.find("\n## ", k + 1)
    s = s[:k] + t + ("" if e < 0 else s[e:])
else:
    s = s.rstrip("\n") + "\n\n" + t
open(p, "w").write(s)
