"""Rewrite section 8 of DESIGN.md: the planted bugs by the check that catches them."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for i in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
    with open(os.path.join(VERIF, "seeded", i, "meta.json")) as f:
        m = json.load(f)
    by.setdefault(m["property"], []).append((i, m["needs"]))
rows = ["| check | planted change: what it needs |", "|---|---|"]
for p in sorted(by):
    rows.append(f"| {p} | " + "; ".join(f"`{i}`: {n.rstrip('.')}" for i, n in by[p]) + " |")
p = os.path.join(VERIF, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(?s)(<!-- matrix -->\n).*?(<!-- end -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s)
open(p, "w").write(s)
