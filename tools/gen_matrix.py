#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for n in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{n}/meta.json"))
    by.setdefault(m["property"], []).append((n, m["needs"]))
t = "| check | planted changes it catches (quick tier) |\n|---|---|\n"
for p in sorted(by):
    t += f"| {p} | " + "; ".join(f"`{n}` ({d})" for n, d in by[p]) + " |\n"
d = open(root + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
if a not in d:
    d = d.rstrip("\n") + "\n\n## Planted changes\n\n" + a + b
i, j = d.index(a) + len(a), d.index(b)
open(root + "/DESIGN.md", "w").write(d[:i] + t + d[j:])
print(sum(map(len, by.values())), "planted changes")
