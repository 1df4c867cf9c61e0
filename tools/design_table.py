#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
rows = []
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {f.split('/')[1]} | {m['needs']} |")
s = open("DESIGN.md").read()
head = "| planted bug (its property's check catches it) | needs |\n|---|---|\n"
a = s.index(head) + len(head)
b = s.index("\n\n", a)
open("DESIGN.md", "w").write(s[:a] + "\n".join(rows) + s[b:])
