"""Scenario generators for the tunnel properties (inputs only; no expectations)."""
TEXTS = ["", "a", "x y", "it's", 'q"q', "l1\nl2", "-n", "*", "$HOME", "\\", "ä€", ["s", "61fffe807a"], ["s", "80"], "\t", "tail\n"]
CONTENTS = [["hex", ""], ["hex", "00"], ["hex", "0a"], ["hex", "ff00fe0a0d"], ["all", 256], ["all", 5000], ["rep", 0, 70000], ["rep", 255, 300000], ["hex", "68656c6c6f0a"],
            ["all", 65536], ["all", 65535], ["rep", 65, 4096], ["hex", "d800"], ["hex", "c3a4"]]
FILES = ["f1", "f2", "sub/f3", "f 4", ["s", "66ff35"], "f1", "neg"]
USERS = ["root", "daemon", "nobody", "games", "0", "1", "2", "nouser", "4294967000", "", "bin", "web", "www", "3001", "4242", "num", "3005"]
GROUPS = ["root", "daemon", "adm", "video", "0", "1", "nogrp", "", "44", "www", "site", "web", "big", "4343", "3004", "3006", "numg", "empty"]
LONG = "n" * 300
# options of a command the remote rejects, alone and with others it accepts
BADOPTS = [dict(cwd="/nonexistent"), dict(cwd="/etc/passwd"), dict(user="nouser"), dict(group="nogrp"), dict(umask="999"), dict(umask="abc"), dict(umask=""),
           dict(cwd="/", user="nouser"), dict(user="root", group="nogrp"), dict(umask="022", cwd="/nonexistent"), dict(user="root", umask="8"), dict(user=""), dict(group="")]

def req(rng, big=False):
    op = rng.choice(["upload"] * 4 + ["download"] * 3 + ["stat"] * 3 + ["run"] * 4 + ["badrun", "resolve_user", "resolve_group", "query_user", "query_group", "home_dir", "getenv", "download_or"])
    bad = rng.random() < 0.08
    badv = rng.choice([["lone"], ["nul"]])
    if op == "upload":
        p = rng.choice(FILES + ["missing/x", "sub", "lnk", "miss/ing/y", "dang", "loop", "own", LONG, "neg/x"])
        par = p.rsplit("/", 1)[0] if isinstance(p, str) and "/" in p else ""
        r = dict(op=op, path=p, parent=par, content=rng.choice(CONTENTS), mode=rng.choice([None, None, "600", "644", "755", "4755", "2750", "0640", "999", "abc"]),
                 owner=rng.choice([None, None, None, "root", "daemon", "nobody", "1", "nouser", "www", "4242", "web"]), group=rng.choice([None, None, None, "root", "daemon", "adm", "0", "nogrp", "www", "4343", "site"]), bad=bad)
        if bad:
            if rng.random() < 0.6: r["path"] = badv
            else: r["owner"] = badv
        return r
    if op in ("download", "download_or"):
        return dict(op=op, path=badv if bad else rng.choice(FILES + ["nope", "lnk", "sub/none", "sub", "dang", "loop", "own", LONG, "neg/x"]), bad=bad)
    if op == "stat":
        return dict(op=op, path=badv if bad else rng.choice(FILES + ["nope", "lnk", "sub", "neg", "nope/x", "dang", "loop", "ff", "sk", "own", LONG, "neg/x"]), follow=rng.random() < 0.5, sha=rng.random() < 0.5, bad=bad)
    if op == "run":
        rc = rng.choice(["0", "0", "0", "1", "2", "77", "127", "128", "255", "k9", "k15"])
        args = [rng.choice(TEXTS) for _ in range(rng.randint(1, 4))]
        if bad: args[rng.randrange(len(args))] = badv
        return dict(op=op, rc=rc, rcnum=-int(rc[1:]) if rc[0] == "k" else int(rc), args=args, input=rng.choice([None] + CONTENTS), capture=rng.random() < 0.8, check=rng.random() < 0.5, bad=bad)
    if op == "badrun":
        if rng.random() < 0.5: return dict(op=op, cmd=["true"], opts=rng.choice(BADOPTS), bad=True)
        return dict(op=op, cmd=rng.choice([["/nonexistent/cmd"], ["nonexistent-cmd-xyz", "a"], [["nul"]], [["lone"]], ["/etc"], ["/etc/passwd"]]), bad=True)
    if op == "getenv": return dict(op=op, name=badv if bad else rng.choice(["VT_A", "VT_EMPTY", "VT_BAD", "VT_UTF", "VT_NONE", "A=B"]), bad=bad)
    if op in ("resolve_user", "home_dir"): return dict(op=op, name=badv if bad else rng.choice(USERS + [None]), bad=bad)
    if op == "resolve_group": return dict(op=op, name=badv if bad else rng.choice(GROUPS + [None]), bad=bad)
    if op == "query_user": return dict(op=op, name=badv if bad else rng.choice(USERS), hash=rng.random() < 0.5, bad=bad)
    if op == "query_group": return dict(op=op, name=badv if bad else rng.choice(GROUPS), bad=bad)

def seq_cases(rng, n, lo=4, hi=24):
    res = []
    for _ in range(n):
        reqs = [req(rng) for _ in range(rng.randint(lo, hi))]
        for r in reqs:
            if r["op"] in ("download_or", "getenv", "query_user", "query_group"): r["dflt"] = rng.random() < 0.4
        # look at what the uploads left behind
        for r in list(reqs):
            b = isinstance(r.get("path"), list) and r["path"][0] in ("lone", "nul")
            if r["op"] == "upload" and rng.random() < 0.5:
                reqs.append(dict(op="stat", path=r["path"], follow=True, sha=True, bad=b))
                reqs.append(dict(op="download", path=r["path"], bad=b))
        if rng.random() < 0.1:
            reqs.insert(rng.randrange(len(reqs) + 1), dict(op="die", bad=False))
        res.append(dict(kind="seq", reqs=reqs))
    return res

def cut_reqs():
    U = lambda **k: dict(dict(op="upload", path="eff/u", parent="eff", content=["hex", "68656c6c6f"], mode=None, owner=None, group=None, bad=False), **k)
    R = lambda **k: dict(dict(op="run", rc="0", rcnum=0, args=["a"], input=["hex", "6162630a64"], capture=True, check=False, bad=False), **k)
    return dict(
        run=R(), runnocap=R(capture=False), runfail=R(rc="3", rcnum=3), runsig=R(rc="k9", rcnum=-9), runbig=R(input=["all", 3000], args=["x" * 50, ["s", "ff80"]]),
        runcheck=R(rc="5", rcnum=5, check=True), upload=U(), uploadm=U(mode="600", owner="root", group="root"), uploadbad=U(path="missing/x", parent="missing"),
        download=dict(op="download", path="neg", bad=False), downloadno=dict(op="download", path="nope", bad=False),
        stat=dict(op="stat", path="neg", follow=False, sha=True, bad=False), statno=dict(op="stat", path="nope", follow=False, sha=False, bad=False), statdir=dict(op="stat", path="sub", follow=True, sha=False, bad=False),
        ruser=dict(op="resolve_user", name="1", bad=False), rusern=dict(op="resolve_user", name=None, bad=False), ruserno=dict(op="resolve_user", name="nouser", bad=False),
        quserm=dict(op="query_user", name="web", hash=True, bad=False), qgroupm=dict(op="query_group", name="big", bad=False),
        rgroup=dict(op="resolve_group", name="daemon", bad=False),
        quser=dict(op="query_user", name="daemon", hash=True, bad=False), quserno=dict(op="query_user", name="nouser", hash=False, bad=False),
        qgroup=dict(op="query_group", name="daemon", bad=False), qgroupno=dict(op="query_group", name="nogrp", bad=False),
        getenv=dict(op="getenv", name="VT_A", bad=False), getenvno=dict(op="getenv", name="VT_NONE", bad=False), badrun=dict(op="badrun", cmd=["/nonexistent/cmd"], bad=True),
        badcwd=dict(op="badrun", cmd=["true"], opts=dict(cwd="/nonexistent"), bad=True), baduser=dict(op="badrun", cmd=["true"], opts=dict(user="nouser"), bad=True))

def cutresp_cases(rng, tier):
    rq = cut_reqs()
    seconds = [rq["stat"], rq["getenv"], rq["run"], rq["quser"], rq["rusern"], rq["upload"], rq["download"]]
    res = []
    for k, r in rq.items():
        if tier == "quick":
            res.append(dict(kind="cutresp", req=r, req2=rng.choice(seconds), cuts="all" if k not in ("runbig",) else sorted(rng.sample(range(3000), 60))))
        else:
            for s in seconds: res.append(dict(kind="cutresp", req=r, req2=s, cuts="all" if k not in ("runbig",) else sorted(rng.sample(range(3000), 300))))
    return res

def cutreq_cases(rng, tier):
    U = lambda **k: dict(dict(op="upload", path="eff/u", parent="eff", content=["hex", "68656c6c6f"], mode=None, owner=None, group=None, bad=False), **k)
    T = lambda *cmd: dict(op="badrun", cmd=list(cmd), bad=False)
    rs = [("u", U()), ("u", U(content=["all", 200], mode="644", owner="root", group="root")), ("u", U(content=["hex", ""])),
          ("u", U(content=["hex", "00000000000000000000"], mode="600")),
          ("t", T("sh", "-c", "echo x > @D/eff/t")), ("t", T("touch", "@D/eff/t", "@D/eff/t")), ("t", T("touch", "@D/eff/t"))]
    return [dict(kind="cutreq", req=r, eff=e, n=(40 if tier == "quick" else 0)) for e, r in rs]

MODES = ["nocmd", "exit", "closed", "garbage", "wrongtype", "acknoid", "ackgarbage", "ackexit"]
STEPS = ["use", "remoteerr", "kill", "raise", "interrupt"]
def life_cases(rng, n):
    res = []
    for m in MODES:
        res.append(dict(kind="life", sessions=[dict(mode=m, steps=[]), dict(mode="ok", steps=["use"])]))
        res.append(dict(kind="life", sessions=[dict(mode="ok", steps=["use"]), dict(mode=m, steps=[]), dict(mode=m, steps=[]), dict(mode="ok", steps=["use"])]))
    for a in STEPS + [None]:
        for b in STEPS + [None]:
            for c in ("use", None):
                res.append(dict(kind="life", sessions=[dict(mode="ok", steps=[x for x in (a, b, c) if x]), dict(mode="ok", steps=["use"])]))
    slow = [x for x in STEPS if x != "kill"]
    for a in slow + [None]:
        res.append(dict(kind="life", sessions=[dict(mode="slow", steps=[a] if a else []), dict(mode="ok", steps=["use"])]))
    for a in (None, "kill", "raise", "use"):
        for m in MODES + ["ok", "slow"]:
            res.append(dict(kind="life", sessions=[dict(mode="ok", steps=[a] if a else []), dict(mode=m, steps=["use"] if m in ("ok", "slow") else [], reuse=True), dict(mode="ok", steps=["use"], reuse=rng.random() < 0.5)]))
    for _ in range(n):
        res.append(dict(kind="life", sessions=[dict(reuse=rng.random() < 0.3, mode="ok" if rng.random() < 0.65 else rng.choice(MODES), steps=[rng.choice(["use", "use"] + STEPS) for _ in range(rng.randint(0, 5))]) for _ in range(rng.randint(1, 5))]))
    return res
