#!/usr/bin/env python3
"""Prints a repository case compactly."""
import json, sys
r = json.load(open(sys.argv[1] if len(sys.argv) > 1 else "/verif/evidence/replay/C23.json"))
print(r["verdict"]); ev = iter(r["trace"]["events"])
for s in r["scenario"]["steps"]:
    if s["kind"] in ("real", "dry"):
        e = next(ev, None)
        if e is None: break
        b, a = e["before"], e["after"]
        print(s["kind"], {k: v for k, v in s["o"].items() if k != "url"}, s["o"]["url"]["repo"], "->", e["res"]["o"], e["res"]["success"], e["res"]["text"][:300])
        print("     ", b, "->", {k: v for k, v in a.items() if b[k] != v})
    else: print("  ", " ".join(str(x) for x in (s.get("a") or s).values()))
