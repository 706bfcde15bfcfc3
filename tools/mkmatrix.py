#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md."""
import json, os
print("| Planted change | Caught by | Needs |\n| --- | --- | --- |")
d = "/verif/seeded"
for k, m in sorted(((n, json.load(open(f"{d}/{n}/meta.json"))) for n in os.listdir(d)), key=lambda x: (x[1]["property"], x[0])):
    print(f"| `{k}` | {m['property']} | {m['needs']} |")
