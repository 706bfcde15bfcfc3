#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the registry (run after adding checks)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if c is None:
        na.append(dict(property=p["id"], reason=registry.NOT_APPLICABLE.get(p["id"], "No check has been built yet.")))
        continue
    checks.append(dict(property=c.id, quick_cmd=f"./check.py {c.id} --tier quick", thorough_cmd=f"./check.py {c.id} --tier thorough",
                       technique=c.technique, level=c.level, level_note=c.note or registry.DEFAULT_NOTE))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="Specifications in spec/ (TLA+, checked with TLC); the harness in harness/ executes generated scenarios against /repo/src and TLC validates the recorded traces. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
