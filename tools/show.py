#!/usr/bin/env python3
"""Prints the last replay of a property compactly."""
import json, sys
r = json.load(open(f"/verif/evidence/replay/{sys.argv[1]}.json"))
print(r["verdict"]); w = int(sys.argv[2]) if len(sys.argv) > 2 else 400
def p(k, v):
    if isinstance(v, list) and v:
        print(k + ":")
        for x in v: print("   ", json.dumps(x)[:w])
    else: print(k, ":", json.dumps(v)[:w])
for k, v in r["scenario"].items(): p("scn." + k, v)
for k, v in r["trace"].items():
    if k != "env": p("tr." + k, v)
