#!/usr/bin/env python3
"""rewrite the planted-bug table of DESIGN.md from seeded/*/meta.json"""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(os.path.join(here, "seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"]))
rows.sort()
head = "| Check that catches it | Change | What it breaks |\n|---|---|---|\n"
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
i = t.index(head)
rest = t[i + len(head):].split("\n")
k = 0
while k < len(rest) and rest[k].startswith("|"):
    k += 1
t = t[:i] + head + "".join("| %s | %s | %s |\n" % r for r in rows) + "\n".join(rest[k:])
open(p, "w").write(t)
