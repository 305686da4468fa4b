#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md from seeded/*/meta.json."""
import json
import os

S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
rows = sorted((json.load(open(os.path.join(S, d, "meta.json"))) | {"id": d} for d in os.listdir(S)), key=lambda m: (m["property"], m["id"]))
print("| property | change | needs |\n|---|---|---|")
for m in rows:
    print(f"| {m['property']} | {m['id']} - {m['what_it_breaks']} | {m['needs']} |")
