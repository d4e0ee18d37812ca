"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(f"{here}/seeded/{d}/meta.json"))
    rows.append((m["property"], d, m["needs"]))
s = open(here + "/DESIGN.md").read()
head = "| check | planted bug | needs |\n|---|---|---|\n"
a = s.index(head) + len(head)
b = a
while s[b:b + 1] == "|": b = s.index("\n", b) + 1
open(here + "/DESIGN.md", "w").write(s[:a] + "".join("| %s | %s | %s |\n" % r for r in sorted(rows)) + s[b:])
