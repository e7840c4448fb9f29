#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for n in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(HERE + "/seeded/%s/meta.json" % n))
    rows.append("| %s | %s | %s |" % (n, m["needs"], m["property"]))
p = HERE + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(<!-- bugs -->\n).*?(\n<!-- end -->)", lambda x: x.group(1) + "\n".join(rows) + x.group(2), s, flags=re.S)
open(p, "w").write(s)
