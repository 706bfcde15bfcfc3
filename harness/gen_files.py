"""Scenario generator for file operations (inputs only)."""
CONT = [["hex", ""], ["hex", "41"], ["hex", "410a"], ["hex", "6f6c640a"], ["hex", "c3a40a"], ["rep", 66, 5000], ["hex", "610d0a62"],
        ["tail", 66, 1200000, "58"], ["tail", 66, 1200000, "59"]]   # large, different only at the end
BIN = [["hex", "00ff80"], ["all", 1024], ["hex", "fffe"]]
OWN = ["root", "daemon", "games", "nobody"]
MODES_F = ["644", "600", "4755", "2755", "6711", "0", "777", "1644"]
MODES_D = ["755", "700", "2755", "1777", "6755", "3770", "711"]
LEAF = ["a", "b", "sub/x", "sub/y", "sub/deep/z", "sp ace", "keep/k1", "sub/ü", "t.conf", "sub/.x.y"]
def owner(rng): return rng.choice(["root", "root", "daemon", "games", "nobody", "54321"])
def entry(rng, path, t=None):
    t = t or rng.choice(["file"] * 5 + ["dir", "dir", "link", "link"] + ["fifo"] * (rng.random() < 0.3))
    e = dict(path=path, type=t, owner=owner(rng), group=owner(rng))
    if t in ("file", "fifo"): e.update(mode=rng.choice(MODES_F), data=rng.choice(CONT + BIN))
    elif t == "dir": e.update(mode=rng.choice(MODES_D))
    else: e.update(mode="777", target=rng.choice(["sub", "a", "nowhere", "keep", ".", "b", "-x", ["s", "ff78"], "sub/deep"]))
    return e
def tree(rng):
    res = [entry(rng, "keep", "dir"), entry(rng, "keep/k0", "file")]
    if rng.random() < 0.85:
        res.append(entry(rng, "sub", "dir" if rng.random() < 0.8 else None))
        if rng.random() < 0.6: res.append(entry(rng, "sub/deep", "dir" if rng.random() < 0.8 else None))
    for n, tg in (("ld", "sub"), ("lf", "a"), ("dead", "nowhere"), ("lk", "keep"), ("self", ".")):
        if rng.random() < 0.45: res.append(dict(path=n, type="link", target=tg, owner=owner(rng), group=owner(rng), mode="777"))
    for n in LEAF:
        if rng.random() < 0.5: res.append(entry(rng, n))
    return res
def paths(rng):
    return rng.choice(LEAF + ["new", "new", "sub/new", "sub", "sub/deep", "keep", "ld", "lf", "dead", "lk", "ld/x", "ld/new", "lf/q", "missing/new", "a/under", "dead/x", "keep/k0", "self/a", "sub/deep/z"]).split("/")
M_OK = ["644", "600", "755", "0644", "0755", "4755", "2755", "1777", "00700", "02755", "7777", "0", "711", "6711"]
M_BAD = ["9", "abc", "99", "", "-1", "20000"]
U_OK = ["root", "daemon", "games", "2", "nobody", "0"]
G_OK = ["root", "daemon", "games", "2", "adm", "0"]
def op(rng, invalid=False, kinds=("dir", "file", "link", "content", "content")):
    o = dict(op=rng.choice(kinds), path=paths(rng), present=rng.random() < 0.75, touch=rng.random() < 0.15, spell=rng.choice(["plain"] * 6 + ["double", "dot"]))
    for k, xs, bad in (("mode", M_OK, M_BAD), ("owner", U_OK, ["ghost", "99999"]), ("group", G_OK, ["ghost", "88888"])):
        if rng.random() < 0.5: o[k] = rng.choice(xs)
        if invalid and rng.random() < 0.3: o[k] = rng.choice(bad)
    if invalid and rng.random() < 0.3: o["spell"] = rng.choice(["relative", "empty", "dotrel", "tilde"])
    if o["op"] == "link":
        o.pop("mode", None)
        o["target"] = rng.choice(["sub", "a", "nowhere", "keep", ".", "b", "-x", "@R/a", "sp ace", ["s", "ff78"], "/etc/hostname", "sub/", "./a", "keep/./k0", "keep//k0", " a", "a\n"] + [""] * invalid)
    if o["op"] == "content":
        o["present"] = True; o["touch"] = False
        o["content"] = rng.choice(CONT)
        o["via"] = rng.choice(["bytes", "str", "file", "into", "tcontent", "tfile", "tinto"] + ["missing", "tundef"] * invalid)
        if o["via"] in ("bytes", "file", "into") and rng.random() < 0.3: o["content"] = rng.choice(BIN)
        # a template turns line endings into the platform's and drops a final newline
        if o["via"].startswith("t"): o["content"] = rng.choice([["hex", ""], ["hex", "41"], ["hex", "6162"], ["hex", "61c3a4"], ["hex", "610a62"]])
        if o["via"] in ("missing", "tundef"): o["badarg"] = True
    if o["spell"] in ("relative", "empty", "dotrel", "tilde") and o.get("via") in ("into", "tinto"): o["via"] = "bytes"
    if rng.random() < 0.1: o["name"] = "given name"
    if o["op"] == "dir" and rng.random() < 0.1 and o["path"][-1] not in ("ld", "lf", "dead", "lk") and not invalid: o["spell"] = "slash"
    return o
def dflt(rng):
    return dict(file_mode=rng.choice([None, "644", "640", "4711"]), dir_mode=rng.choice([None, "755", "2750"]), owner=rng.choice([None, None, "daemon", "games"]), group=rng.choice([None, None, "games", "daemon"]),
                umask=rng.choice([None, "022", "077", "000", "777"]))
EXT = ["rm", "write", "chmod", "chown", "swap"]
def case(rng, steps): return dict(tree=tree(rng), dflt=dflt(rng), args=dict(diff=rng.random() < 0.3, verbose=rng.choice([0, 0, 1, 2]), changes=rng.random() < 0.2), steps=steps)
def ext(rng): return dict(kind="ext", act=rng.choice(EXT), path=paths(rng))
def nofd(rng, o):
    return o
def state_cases(rng, n):
    """C12, C13: sequences of operations, each repeated"""
    res = []
    for _ in range(n):
        steps = []
        for _ in range(rng.randint(4, 8)):
            o = op(rng); ck = rng.random() < 0.6
            steps.append(dict(kind="real", o=o, check=ck))
            if rng.random() < 0.5: steps.append(dict(kind="real", o=o, check=ck, again=True))
            if rng.random() < 0.15: steps.append(ext(rng))
        res.append(case(rng, steps))
    return res
def dry_cases(rng, n):
    res = []
    for _ in range(n):
        steps = []
        for _ in range(rng.randint(4, 8)):
            o = op(rng, invalid=rng.random() < 0.1); ck = rng.random() < 0.6
            steps.append(dict(kind="dry", o=o, check=ck))
            if rng.random() < 0.7: steps.append(dict(kind="real", o=o, check=ck))
            if rng.random() < 0.15: steps.append(ext(rng))
        res.append(case(rng, steps))
    return res
def bad_cases(rng, n):
    res = []
    for _ in range(n):
        steps = []
        for _ in range(rng.randint(5, 9)):
            o = op(rng, invalid=rng.random() < 0.5)
            steps.append(dict(kind=rng.choice(["real", "real", "dry"]), o=o, check=rng.random() < 0.5))
        res.append(case(rng, steps))
    return res
def fault_cases(rng, n):
    res = []
    for _ in range(n):
        steps = []
        for _ in range(rng.randint(3, 6)):
            o = op(rng); ck = rng.random() < 0.6
            for _ in range(rng.choice([1, 1, 2])):
                steps.append(dict(kind="fault", o=o, check=ck, fault=dict(at=rng.choice([1, 3, 5, 6, 6, 7, 7, 8, 8, 9, 10, rng.randint(1, 12)]), when=rng.choice(["before", "after"]), exc=rng.choice(["os", "io", "cpe"]))))
            steps.append(dict(kind="real", o=o, check=ck))
            if rng.random() < 0.3: steps.append(dict(kind="real", o=o, check=ck, again=True))
        res.append(case(rng, steps))
    return res
def fault_family(rng, limit=None):
    """C16: for every kind of target and operation, every request (one per target) fails in every way"""
    OPS = [dict(op=k, present=p, **x) for k in ("dir", "file") for p, x in ((True, {}), (True, dict(mode="640", owner="daemon")), (True, dict(mode="4755", owner="games", group="games")), (False, {}), (True, dict(touch=True)))]
    OPS += [dict(op="link", present=p, target=t, **x) for p, t, x in ((True, "keep", {}), (True, "sub", dict(owner="daemon")), (False, "keep", {}))]
    OPS += [dict(op="content", present=True, content=CONT[k], via=v, **x) for k, v, x in ((3, "bytes", {}), (2, "file", dict(mode="4755", owner="daemon")), (2, "str", dict(group="games")))]
    PRIOR = [None, dict(type="file", mode="644", data=CONT[2]), dict(type="file", mode="755", data=CONT[3]), dict(type="dir", mode="755"), dict(type="link", mode="777", target="keep"), dict(type="link", mode="777", target="nowhere")]
    res = []
    for pr in PRIOR:
        for o in OPS:
            for when in ("before", "after"):
                for exc in ("os", "io", "cpe"):
                    for ck in (True, False):
                        steps, tr = [], [dict(path="keep", type="dir", mode="755", owner="root", group="root")]
                        for at in (1, 4, 5, 6, 7, 8, 9, 10):
                            if pr: tr.append(dict(pr, path=f"t{at}", owner="root", group="root"))
                            st = dict(dict(touch=False, spell="plain"), **o, path=[f"t{at}"])
                            steps.append(dict(kind="fault", o=st, check=ck, fault=dict(at=at, when=when, exc=exc)))
                            steps.append(dict(kind="real", o=st, check=ck))
                        c = case(rng, steps); c["tree"] = tr
                        res.append(c)
    return res if limit is None or limit >= len(res) else rng.sample(res, limit)

# --- lines ---------------------------------------------------------------------------------------------
LT = ["alpha", "beta", "key=1", "key=2", " key=1", "\talpha ", "", "  ", "# comment", "alphabet", "gämma", "a  b", "-x", "alpha # c", "key=10"]
OTHER = ["x\x0balpha", "y\x0ckey=1", "beta\x85", "z\u2028key=2", "alpha\x1d", "zz\x0czz", "q\x0bq", "w\x85w", "e\u2028e", "r\x1cr", "tail  ", "\tlead", "x"]
RX = [None] * 4 + ["", "^alpha$", "^key=", "key=1", "a", "^\\s*alpha", "beta|gamma", "^$", "^\\s*#", "^.*$", "nothing-like-it", "=\\d+$", "^a", "a$", "\\bkey\\b"]
def filetext(rng):
    n = rng.choice([0, 1, 1, 2, 3, 4, 6])
    b = b""
    style = rng.choice([b"\n", b"\n", b"\r\n", None])
    for i in range(n):
        t = rng.choice(LT if rng.random() < 0.75 else OTHER).encode()
        if rng.random() < 0.05: t = b"\xff\xfe" + t
        b += t + (style or rng.choice([b"\n", b"\r\n"]))
    if n and rng.random() < 0.35: b = b[:-2] if b.endswith(b"\r\n") else b[:-1]
    return b
LPATHS = ["f", "f", "f", "g", "d", "l", "new", "d/h", "missing/x", "f/x"]
def line_op(rng):
    o = dict(op="line", path=rng.choice(LPATHS[:-1]).split("/"), line=rng.choice(LT), present=rng.random() < 0.55, spell=rng.choice(["plain"] * 12 + ["relative", "empty", "dotrel"]))
    rx = rng.choice(RX)
    if rx is not None: o["regex"] = rx
    if rng.random() < 0.45: o["ws"] = rng.random() < 0.4
    if rng.random() < 0.3: o["backup"] = rng.choice([True, True, "saved", "f.old", "d/saved"])
    return o
def line_tree(rng):
    res = []
    for n in ("d", "f", "g", "d/h", "l", "saved", "f.old"):
        if rng.random() < (0.9 if n in "dfg" else 0.5):
            if n == "d": res.append(entry(rng, n, "dir"))
            elif n == "l": res.append(dict(path="l", type="link", target="f", owner="root", group="root", mode="777"))
            else:
                e = entry(rng, n, "file"); e["data"] = ["hex", filetext(rng).hex()]
                res.append(e)
    return res
def line_like(rng, o, tree):
    """Often the line is one that the file has, or one that differs only in white space."""
    data = [e["data"][1] for e in tree if e["path"] == "/".join(o["path"]) and e["type"] == "file"]
    if not data: return
    ls = [t for t in bytes.fromhex(data[0]).decode("utf-8", "surrogateescape").replace("\r", "").split("\n") if all(ord(c) < 0xd800 for c in t)]
    if ls: o["line"] = rng.choice([lambda t: t, lambda t: t, str.strip, lambda t: t + " ", lambda t: " " + t, lambda t: t + "\t", str.lower, lambda t: t[:-1]])(rng.choice(ls))
def line_cases(rng, n, kinds=("real", "real", "dry", "fault")):
    res = []
    for _ in range(n):
        steps, tree = [], line_tree(rng)
        for _ in range(rng.randint(4, 8)):
            o = line_op(rng)
            if rng.random() < 0.3: line_like(rng, o, tree)
            ck = rng.random() < 0.6; kind = rng.choice(kinds)
            st = dict(kind=kind, o=o, check=ck)
            if kind == "fault": st["fault"] = dict(at=rng.randint(1, 6), when=rng.choice(["before", "after"]), exc=rng.choice(["os", "io", "cpe"]))
            steps.append(st)
            if kind != "real" and rng.random() < 0.6: steps.append(dict(kind="real", o=o, check=ck))
            if kind == "real" and rng.random() < 0.7 and not o.get("backup") is True: steps.append(dict(kind="real", o=o, check=ck, again=True))
        res.append(dict(tree=tree, dflt=dflt(rng), args=dict(diff=rng.random() < 0.3, changes=rng.random() < 0.2, verbose=rng.choice([0, 1])), steps=steps))
    return res

# --- directory uploads -----------------------------------------------------------------------------------
def srctree(rng):
    res = [dict(entry(rng, "tree", "dir"), mode="755"), dict(entry(rng, "empty", "dir"), mode="755"), dict(entry(rng, "plain", "file"))]
    for n in ("tree/f", "tree/.hidden", "tree/sub", "tree/sub/g", "tree/sub/deep", "tree/sub/deep/h", "tree/sp ace", "tree/e", "tree/l", "tree/tree", "tree/tree/f", "tree/__pycache__", "tree/__pycache__/m.pyc", "tree/.git", "tree/.git/config", "tree/f~", "tree/-n"):
        if rng.random() < (0.6 if n[-1] not in "cg~n" else 0.25):
            t = "dir" if n in ("tree/__pycache__", "tree/.git", "tree/sub", "tree/sub/deep", "tree/e", "tree/tree") else rng.choice(["file"] * 6 + ["link", "link", "fifo"] + ["dir"] * (n != "tree/sp ace"))
            e = entry(rng, n, t)
            if t == "link": e["target"] = rng.choice(["sp ace", "nowhere", "/etc/hostname", "../plain"])
            res.append(e)
    return res
def updir_tree(rng):
    odd = rng.random() < 0.25      # something else where the files go
    res = [dict(entry(rng, "keep", "dir"))]
    for n in ("dst", "dst/f", "dst/sub", "dst/sub/g", "dst/sub/other", "dst/zz", "dst/tree", "dst/tree/f", "dst/tree/sub", "dst/tree/sub/g", "dst/tree/keepme", "dst/e", "lnk", "tree", "tree/f", "tree/sub"):
        if rng.random() < (0.75 if n == "dst" else 0.4):
            if n == "lnk": res.append(dict(path="lnk", type="link", target="dst", owner="root", group="root", mode="777")); continue
            t = "dir" if n.split("/")[-1] in ("dst", "sub", "tree", "e") and rng.random() < 0.93 else rng.choice(["file"] * (2 if odd else 12) + ["link", "dir"])
            res.append(entry(rng, n, t))
    return res
def updir_op(rng):
    o = dict(op="updir", src=rng.choice(["tree"] * 6 + ["empty", "plain", "gone"]), path=rng.choice([["dst"], ["dst"], ["new"], ["dst", "new"], ["missing", "x"], ["lnk"], ["lnk", "in"], []]), slash=rng.random() < 0.5,
             srcspell=rng.choice(["abs", "absslash", "rel", "relslash", "dot"]))
    if o["path"] == []: o["slash"] = True
    if rng.random() < 0.05: o.update(spell="relative", path=o["path"] or ["dst"])
    for k, xs in (("dir_mode", ["755", "2750", "0700", "1777"]), ("file_mode", ["644", "600", "4755", "0640"]), ("owner", U_OK), ("group", G_OK)):
        if rng.random() < 0.5: o[k] = rng.choice(xs)
    if rng.random() < 0.06: o[rng.choice(["owner", "group"])] = "ghost"
    return o
def updir_cases(rng, n, kinds=("real", "real", "dry", "fault")):
    res = []
    for _ in range(n):
        steps = []
        for _ in range(rng.randint(2, 4)):
            o = updir_op(rng); ck = rng.random() < 0.6; kind = rng.choice(kinds)
            st = dict(kind=kind, o=o, check=ck)
            if kind == "fault": st["fault"] = dict(at=rng.randint(1, 40), when=rng.choice(["before", "after"]), exc=rng.choice(["os", "io", "cpe"]))
            steps.append(st)
            if kind != "real" and rng.random() < 0.7: steps.append(dict(kind="real", o=o, check=ck))
            if rng.random() < 0.6: steps.append(dict(kind="real", o=o, check=ck, again=steps[-1]["kind"] == "real"))
        res.append(dict(tree=updir_tree(rng), srctree=srctree(rng), dflt=dflt(rng), args=dict(diff=rng.random() < 0.2), steps=steps))
    return res
