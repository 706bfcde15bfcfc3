"""Programs of nested scripts that fail somewhere (C28). Inputs only."""
import os
RAISES = ["value", "value", "assert", "custom", "undef", "missing", "proc", "proc", "proc", "opfail", "opfail", "opraise", "opexc", "opproc", "opproc"]
def err_cases(rng, n):
    res = []
    for _ in range(n):
        ns = rng.choice([1, 2, 3, 3, 4, 5])
        loud = rng.random() < 0.85
        cnt = [0]
        def mark():
            cnt[0] += 1
            return f"m{cnt[0]}"
        scripts = [dict(path="deploy.py" if i == 0 else rng.choice(["", "t/", "t/u/"]) + f"s{i}.py", broken=i > 0 and rng.random() < 0.05, stmts=[]) for i in range(ns)]
        for i, s in enumerate(scripts):
            for _ in range(rng.choice([1, 1, 2, 3])):
                r = rng.random()
                k = "call" if i + 1 < ns and r < 0.6 else "ok" if r < (0.7 if loud else 0.85) else rng.choice(RAISES)
                if k == "call" and rng.random() < 0.06: k = "cycle"
                if rng.random() < 0.015: k = rng.choice(["exit", "kbd"])
                st = dict(k=k, m=mark(), target=0, fn=rng.random() < 0.25, h=rng.choice(["none", "none", "none", "swallow", "reraise", "wrap", "replace"]), name=rng.choice(["~", "~", "a name", "x"]), check=rng.random() < 0.8, code=rng.choice([1, 2, 77, 255]))
                if k == "call": st["target"] = rng.randrange(i + 1, ns) if rng.random() < 0.3 else i + 1
                if k == "cycle": st["target"] = rng.randrange(0, i + 1); st["k"] = "call"
                s["stmts"].append(st)
        # where the lines of a script are
        for s in scripts:
            line = 5     # after the header
            for st in s["stmts"]:
                base = line + (1 if st["fn"] else 0)
                if st["h"] == "none": st["line"], st["hline"], nxt = base, 0, base + 1
                else: st["line"], st["hline"], nxt = base + 1, base + 3, base + 4
                st["func"] = f"f_{st['m']}" if st["fn"] else "<module>"
                if st["fn"]: st["cline"], nxt = nxt, nxt + 1
                else: st["cline"] = 0
                st["rel"] = os.path.relpath(scripts[st["target"]]["path"], os.path.dirname(s["path"]) or ".") if st["k"] == "call" else "~"
                line = nxt + 1     # an empty line
        res.append(dict(scripts=scripts, debug=rng.random() < 0.1, dry=rng.random() < 0.2, color=False))
    return res
