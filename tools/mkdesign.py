#!/usr/bin/env python3
"""Refresh the table of planted bugs in DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | what it needs |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {d['property']} | {d['needs']}: {d['what_it_breaks']} |")
p = V + "/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
