"""Inventories that replace default behaviour (C29). Inputs only."""
PARTS = ["a", "b", "web", "db", "x-1"]
NO = dict(s="~", h="~")
def u(s, h): return dict(s=s, h=h)
def cust_cases(rng, n):
    res = []
    for _ in range(n):
        hook = lambda p, f: dict(on=True, t=f()) if rng.random() < p else dict(on=False, t=[])
        gnames = ["all"] + rng.sample(["g1", "g2", "zed"], rng.choice([0, 1, 2, 3]))
        hosts = []
        for part in rng.sample(PARTS, rng.choice([1, 2, 2, 3])):
            url = NO if rng.random() < 0.1 else u(rng.choice(["", "", "ssh", "vt", "vu", "local"] + (["zz"] if rng.random() < 0.3 else [])), part)
            name = rng.choice(["~", "~", "n-" + part, part])
            if url == NO and rng.random() < 0.9: name = "n-" + part
            hosts.append(dict(url=url, name=name, file="~", groups=[g for g in gnames[1:] if rng.random() < 0.6], form=rng.choice(["obj", "dict"])))
        urls = [h["url"] for h in hosts if h["url"] != NO]
        pick = lambda xs: rng.sample(xs, rng.randint(0, len(xs)))
        quali = lambda x: u(rng.choice([x["s"] or "vt", "vt", "vu", "ssh"]), rng.choice([x["h"], x["h"] + ".lan"])) if rng.random() > 0.04 else u("!", "!")
        qualify = hook(0.5, lambda: [dict(k=x, v=quali(x)) for x in (urls if rng.random() < 0.7 else pick(urls))])
        allurls = urls + [u(x["s"] or "ssh", x["h"]) for x in urls] + [t["v"] for t in qualify["t"]]
        uniq = []
        for x in allurls:
            if x not in uniq and x["s"] != "!": uniq.append(x)
        named = lambda x: "!" if rng.random() < 0.03 else rng.choice(["X" + x["h"], x["h"] + "_", x["h"], x["s"] + x["h"], "same" if rng.random() < 0.2 else "q" + x["h"]])
        extract = hook(0.5, lambda: [dict(k=x, v=named(x)) for x in pick(uniq)])
        base = rng.choice(["", "", "sub", "sub/deep"])
        at = lambda p: f"{base}/{p}" if base else p
        gdir, hdir = rng.choice(["groups", "groups", "gg"]), rng.choice(["hosts", "hosts", "hh/x"])
        cand = ["common.py", "other/m.py", "sub/k.py", "groups/all.py", "hosts/a.py"]
        names = sorted({h["name"] for h in hosts if h["name"] != "~"} | {x["h"] for x in uniq} | {t["v"] for t in extract["t"] if t["v"] != "!"})
        gfile = hook(0.4, lambda: [dict(k=g, v=rng.choice(cand + ["~"])) for g in pick(gnames)])
        hfile = hook(0.4, lambda: [dict(k=x, v=rng.choice(cand + ["~"])) for x in pick(names)])
        groups = [dict(name=g, file="~") for g in gnames]
        for x in groups + hosts:
            if rng.random() < 0.12: x["file"] = rng.choice(["common.py", "other/m.py"])
        files = {f for f in cand if rng.random() < 0.7} | {at(f"{gdir}/{g}.py") for g in gnames if rng.random() < 0.75} | {at(f"{hdir}/{x}.py") for x in names if rng.random() < 0.6}
        for x in groups + hosts:
            if x["file"] != "~" and rng.random() < 0.85: files.add(at(x["file"]))
        # the usual places exist as well, although they may not be meant
        if base: files |= {f"{gdir}/{g}.py" for g in gnames if rng.random() < 0.3} | {f"{hdir}/{x}.py" for x in names if rng.random() < 0.3}
        files = sorted(files)
        sets = []
        for f in files:
            if rng.random() < 0.15:
                r = rng.random()
                sets.append(dict(k=f, v=dict(url=u(rng.choice(["vt", "vu", "ssh", "zz"]), "set" + str(len(sets))) if r < 0.6 else NO, connector=rng.choice(["vt", "vu"]) if r > 0.5 else "~")))
        settings = dict(on=rng.random() < 0.5, v=dict(file_mode=rng.choice(["640", "600", "644"]), dir_mode=rng.choice(["750", "700", "755"]), umask=rng.choice(["022", "077", "007"]), cwd=rng.choice(["/", "/srv", "/tmp"])))
        defs = lambda d, ext: sorted({f[len(d) + 1:-3] for f in files if f.startswith(d + "/") and "/" not in f[len(d) + 1:]})
        res.append(dict(hosts=hosts, groups=groups, qualify=qualify, extract=extract, base=base, basehook=bool(base), gdir=gdir, hdir=hdir, gfile=gfile, hfile=hfile, files=files, sets=sets, settings=settings,
                        schemes=["ssh", "vt", "vu", "local"], present=defs(gdir, "g"), avail=rng.choice(["~", "~", "over"]), style=rng.choice(["def", "lambda", "import"]), cwd=rng.choice(["abs", "rel"])))
        if res[-1]["avail"] == "over": res[-1]["present"] = ["one", "two"]
    return res
