#!/usr/bin/env python3
"""Print the table of planted changes for DESIGN.md (from seeded/*/meta.json)."""
import json, os
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
rows = [(json.load(open(f"{d}/{i}/meta.json")), i) for i in os.listdir(d)]
print("| change | property and check that catches it | needs |")
print("|---|---|---|")
for m, i in sorted(rows, key=lambda r: (r[0]["property"], r[1])):
    print(f"| {i} | {m['property']} | {m['needs']} |")
