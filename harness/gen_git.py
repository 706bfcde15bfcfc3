"""Random histories of remote changes and repository operations (inputs only)."""
BR, TG = ["main", "dev", "feature/main", "v1"], ["v1", "v2", "dev", "rel/v2"]
COMMITS = ["m1", "m2", "m3", "m4", "m5", "m6", "d1", "d2", "d3", "d4", "x1", "x2", "x3", "x4"]

def nxt(c, rng):
    return c[0] + str(min(int(c[1]) + rng.randint(1, 2), 6 if c[0] == "m" else 4))

def git_cases(rng, n, dry=False):
    res = []
    for _ in range(n):
        heads = {"r1": {}, "r2": {}}
        steps = []
        def act(**a): steps.append(dict(kind="remote", a=a))
        def branch(r, b, c): heads[r][b] = c; act(act="branch", repo=r, n=b, c=c)
        for r in ("r1", "r2"):
            branch(r, "main", rng.choice(["m1", "m2", "m3"]))
            if rng.random() < 0.6: branch(r, "dev", rng.choice(["d1", "d2"]))
            if rng.random() < 0.4: branch(r, "feature/main", rng.choice(["x1", "d1", "m1"]))
            if rng.random() < 0.6: act(act="tag", repo=r, n=rng.choice(TG), c=rng.choice(COMMITS), ann=rng.random() < 0.6)
            if rng.random() < 0.15: branch(r, "v1", "x2")
        if rng.random() < 0.25: steps.append(dict(kind="local", act=rng.choice(["dir", "plain", "gitfile", "file", "file"])))
        url = dict(repo="r1", form=rng.choice(["path", "file"]))
        focus = rng.random() < 0.3     # move back and forth between few branches and commits
        cur = rng.choice([None, None, "main", "dev", "v1", "feature/main"])
        shallow = url["form"] == "file" and rng.random() < 0.25
        for _ in range(rng.randint(1, 5)):
            for _ in range(rng.choice([0, 1, 1, 2])):
                r = rng.random() if not focus else rng.choice([0.5, 0.5, 0.1, 0.85, 0.92])
                if r < 0.45:
                    b = rng.choice(list(heads["r1"])); branch("r1", b, nxt(heads["r1"][b], rng))
                elif r < 0.55: branch("r1", rng.choice(BR[:2] if focus else BR), rng.choice(["m1", "m2", "m3", "d1"] if focus else COMMITS))
                elif r < 0.75: act(act="tag", repo="r1", n=rng.choice(TG), c=rng.choice(COMMITS), ann=rng.random() < 0.6)
                elif r < 0.79: b = rng.choice(BR[1:]); heads["r1"].pop(b, None); act(act="delbranch", repo="r1", n=b)
                elif r < 0.82: act(act="deltag", repo="r1", n=rng.choice(TG))
                elif r < 0.88: act(act="head", repo="r1", n=rng.choice(list(heads["r1"])))
                elif r < 0.94: steps.append(dict(kind="local", act=rng.choice(["untracked", "untracked", "modify", "commit"])))
                else: steps.append(dict(kind="local", act="rm"))
            if focus: cur = rng.choice([None, "main", "dev"])
            elif rng.random() < 0.3: cur = rng.choice([None, "main", "dev", "v1", "v2", "feature/main", "rel/v2", "ghost"])
            u = url if rng.random() < 0.85 else dict(repo=rng.choice(["r2", "r2", "r2", "r3"]), form=url["form"])
            o = dict(url=u, branch_or_tag=cur, update=rng.choice([None, None, None, True, False]), depth=rng.choice([1, 2]) if shallow else None, rebase=rng.choice([None, None, True, False]), ff_only=rng.choice([None, None, False, True]))
            i = len(steps)
            check = rng.choice([None, None, True, False])
            if dry or rng.random() < 0.15: steps.append(dict(kind="dry", id=i, o=o, check=check))
            steps.append(dict(kind="real", id=i, o=o, check=check, **(dict(fault=rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8])) if not dry and rng.random() < 0.2 else {})))
            if rng.random() < 0.4: steps.append(dict(kind="real", id=i, o=o, check=check, again=True))
        res.append(dict(steps=steps))
    return res

def diverged_cases(rng, n, dry=False):
    """Local commits and a remote that moves on or is reset, for the same and for other branches."""
    res = []
    for _ in range(n):
        steps = []
        def act(**a): steps.append(dict(kind="remote", a=a))
        def op(ref, again=False):
            o = dict(url=dict(repo="r1", form=form), branch_or_tag=ref, update=rng.choice([None, None, True]), depth=None, rebase=rng.choice([None, True, False]), ff_only=rng.choice([None, None, False, True]))
            i = len(steps)
            check = rng.choice([None, True, False])
            if dry: steps.append(dict(kind="dry", id=i, o=o, check=check))
            steps.append(dict(kind="real", id=i, o=o, check=check))
            if again: steps.append(dict(kind="real", id=i, o=o, check=check, again=True))
        form = rng.choice(["path", "file"])
        b = rng.choice(["main", "dev", None])
        for r in ("r1", "r2"): act(act="branch", repo=r, n="main", c="m2"); act(act="branch", repo=r, n="dev", c="d1")
        op(b)
        for _ in range(rng.randint(1, 3)):
            for _ in range(rng.randint(1, 3)):
                r = rng.random()
                if r < 0.45: steps.append(dict(kind="local", act=rng.choice(["commit", "commit", "untracked", "modify"])))
                else: act(act="branch", repo="r1", n=rng.choice(["main", "dev", b or "main", b or "main"]), c=rng.choice(["m1", "m3", "m4", "d2", "d3", "x1"]))
            op(b if rng.random() < 0.75 else rng.choice(["main", "dev"]), rng.random() < 0.6)
        res.append(dict(steps=steps))
    return res

def submodule_cases(rng, n, dry=False):
    """A repository with nested submodules."""
    res = []
    for _ in range(n):
        steps = []
        def act(**a): steps.append(dict(kind="remote", a=a))
        form = rng.choice(["path", "file"])
        shallow = form == "file" and rng.random() < 0.25
        usual = dict(update_submodules=rng.choice([True, True, True, None, False]), recursive_submodules=rng.choice([None, False, True, True]), shallow_submodules=rng.choice([None, False, True]))
        cur = rng.choice([None, "main", "dev"])
        heads = dict(main=rng.choice(["m1", "m2", "m3"]), dev=rng.choice(["d1", "x1", "d2"]))
        for b, c in heads.items(): act(act="branch", repo="r4", n=b, c=c)
        if rng.random() < 0.5: act(act="tag", repo="r4", n="v1", c=rng.choice(COMMITS), ann=rng.random() < 0.6)
        for _ in range(rng.randint(1, 5)):
            for _ in range(rng.choice([0, 1, 1, 2])):
                r = rng.random()
                if r < 0.6:
                    b = rng.choice(list(heads)); heads[b] = nxt(heads[b], rng); act(act="branch", repo="r4", n=b, c=heads[b])
                elif r < 0.7: act(act="tag", repo="r4", n="v1", c=rng.choice(COMMITS), ann=rng.random() < 0.6)
                elif r < 0.78: steps.append(dict(kind="local", act="submove", c=rng.choice(["s1", "s2", "s3"])))
                elif r < 0.95: steps.append(dict(kind="local", act=rng.choice(["untracked", "subfile", "subfile", "modify"])))
                else: steps.append(dict(kind="local", act="rm"))
            if rng.random() < 0.2: cur = rng.choice([None, "main", "dev", "v1"])
            o = dict(url=dict(repo="r4", form=form), branch_or_tag=cur, update=rng.choice([None, None, None, True, False]), depth=rng.choice([1, 2]) if shallow else None, rebase=rng.choice([None, True, False]), ff_only=rng.choice([None, False, True]),
                     **(usual if rng.random() < 0.75 else dict(update_submodules=rng.choice([True, True, None]), recursive_submodules=rng.choice([None, True]), shallow_submodules=rng.choice([None, True]))))
            i = len(steps)
            check = rng.choice([None, None, True, False])
            if dry or rng.random() < 0.15: steps.append(dict(kind="dry", id=i, o=o, check=check))
            steps.append(dict(kind="real", id=i, o=o, check=check, **(dict(fault=rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 7, 8])) if not dry and rng.random() < 0.25 else {})))
            if rng.random() < 0.5: steps.append(dict(kind="real", id=i, o=o, check=check, again=True))
        res.append(dict(steps=steps, subs=True))
    return res
