#!/usr/bin/env python3
"""Prints the failing event of the last file-operation replay."""
import json, sys
r = json.load(open(f"/verif/evidence/replay/{sys.argv[1]}.json"))
print(sys.argv[1], r["verdict"], r["trace"].get("detail", "")[-1500:])
pre = r["trace"].get("init"); n = int(sys.argv[2]) if len(sys.argv) > 2 else None
f = lambda s: {k: tuple(v[x] for x in ("type", "mode", "owner", "group", "data", "to")) for k, v in s.items()}
for i, e in enumerate(r["trace"].get("events", [])):
    if n is None or i == n:
        print(f"--- {i}", e["kind"], "hit" if e.get("hit") else "", "check" if e.get("check") else "", json.dumps(e.get("o")), json.dumps(e.get("res")), e.get("guarded"), e.get("log", ""))
        a, b = f(pre), f(e["post"])
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k): print("     ", k, a.get(k), "->", b.get(k))
            elif n is not None: print("     ", k, a.get(k))
    pre = e["post"]
