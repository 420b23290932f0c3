#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(H, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    rows.append(f"| {os.path.basename(d)} | {m['needs'].strip()} | {m['property']} |")
p = os.path.join(H, "DESIGN.md")
s = open(p).read()
head = "## Planted bugs"
i = s.find(head)
s = (s[:i] if i >= 0 else s.rstrip() + "\n\n")
s += head + f"""

{len(rows)} changes that compile and pass the 589 tests, each with a demonstration (`seeded/<id>/`).  All are caught by the quick tier of the
check of their property.  Missed at first, and the reason for a stronger generator: p03-scalar-reference (scalar operand inside the
destination), p05-all-minus-infinity (infinities and ends of the type), p10/p33 long inputs (rare large sizes), p32-quiet-bins (seen only by
luck: signals are now scaled by powers of two from quiet to loud), p07/p25/p26 variants (aliasing, resumed streams).

| Id | Needs | Caught by |
|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)
print(len(rows))
