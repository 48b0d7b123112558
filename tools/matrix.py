#!/usr/bin/env python3
"""Prints the table of the planted bugs for DESIGN.md (section 5)."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent / "seeded"
rows = []
for d in sorted(root.iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["needs"].strip().split("\n")[0]))
print("| property whose check reports it | planted bug | needs |\n|--|--|--|")
for p, n, w in sorted(rows):
    print(f"| {p} | {n} | {w} |")
