#!/usr/bin/env python3
"""campaign.py FILE [ID-PREFIX...] [-j N]: applies each change of FILE (a Python list M of
(id, property, file, old, new) with optional further (file, old, new) triples) to a scratch
copy of /repo and reports whether the property's quick check notices it."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
j = 2
if "-j" in args: i = args.index("-j"); j = int(args[i + 1]); del args[i:i + 2]
ns = {}
exec(open(args[0]).read(), ns)
def run(m):
    mid, prop, *edits = m
    d = tempfile.mkdtemp(prefix="camp-", dir="/tmp")
    os.chmod(d, 0o755)
    try:
        r = f"{d}/repo"
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        for k in range(0, len(edits), 3):
            f, old, new = edits[k:k + 3]
            p = f"{r}/src/fora/{f}"
            s = open(p).read()
            if s.count(old) != 1: return f"{mid} [{prop}] EDIT FAILS ({s.count(old)} matches)"
            open(p, "w").write(s.replace(old, new))
        out = subprocess.run(["python3", "check.py", prop], cwd="/verif", env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
        t = out.stdout.decode()
        return f"{mid} [{prop}] " + {0: "MISSED", 1: "caught"}.get(out.returncode, f"rc={out.returncode} " + t[-400:]) + " " + "; ".join(l.strip() for l in t.splitlines() if " x [" in l)[:150]
    finally: shutil.rmtree(d)
todo = [m for m in ns["M"] if not args[1:] or any(m[0].startswith(a) for a in args[1:])]
with ThreadPoolExecutor(j) as ex:
    for r in ex.map(run, todo): print(r, flush=True)
