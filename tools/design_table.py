"""Rewrites the table of planted bugs in DESIGN.md:  python3 tools/design_table.py

Reads the outcomes of running each bug's own quick check (one "id property rc=N"
per line) from the file given, default /tmp/seed.out.
"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
outcomes = {}
for line in open(sys.argv[1] if len(sys.argv) > 1 else "/tmp/seed.out"):
    m = re.match(r"(\S+) (C\d\d) rc=(\d+)", line)
    if m:
        outcomes[m[1]] = "caught" if m[3] == "1" else "MISSED"
rows = ["| planted bug | check | outcome | what it breaks | needs |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(f"{HERE}/seeded")):
    meta = json.load(open(f"{HERE}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {meta['property']} | {outcomes.get(d, '?')} | {meta['what_it_breaks']} | {meta['needs']} |")
p = f"{HERE}/DESIGN.md"
s = open(p).read()
a, b = "<!-- bugs -->", "<!-- /bugs -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
