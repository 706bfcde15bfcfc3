"""Random programs for the script machine (inputs only)."""
N8 = dict(as_user="~", as_group="~", owner="~", group="~", file_mode="~", dir_mode="~", umask="~", cwd="~")
USERS, GROUPS = ["root", "daemon", "nobody", "1", "games"], ["root", "daemon", "video", "1", "0"]
MODES, UM, DM = ["644", "0644", "640", "600", "000"], ["022", "077", "0027", "22", "0", "000"], ["755", "0755", "750", "0"]
VALUES = ["p1", "p2", " p3 ", "", None, "dx", "a\nb"]

def settings(rng, p_bad):
    d = dict(N8)
    for k, vs in (("as_user", USERS), ("as_group", GROUPS), ("owner", USERS), ("group", GROUPS), ("file_mode", MODES), ("dir_mode", DM), ("umask", UM), ("cwd", ["@D/remote", "/", "@D/elsewhere"])):
        if rng.random() < 0.3: d[k] = rng.choice(vs)
    if rng.random() < p_bad:
        k, v = rng.choice([("as_user", "ghost"), ("as_group", "ghost"), ("owner", "ghost"), ("group", "ghost"), ("file_mode", "9"), ("umask", "abc"), ("cwd", "@D/missing"), ("dir_mode", "9")])
        d[k] = v
    return d

def body(rng, nscripts, scripts, depth, size, focus):
    code = []
    while len(code) < size:
        r = rng.random()
        if r < 0.32: code.append(dict(i="obs"))
        elif r < 0.47 and depth > 0:
            code += [dict(i="block", d=settings(rng, 0.12))] + body(rng, nscripts, scripts, depth - 1, rng.randint(0, 4), focus) + [dict(i="end"), dict(i="obs")]
        elif r < 0.62 and depth > 0:
            b = body(rng, nscripts, scripts, depth - 1, rng.randint(1, 5), focus)
            if rng.random() < 0.5: b.append(dict(i="raise", kind=rng.choice(["boom", "boom", "exit", "interrupt", "error"])))
            code += [dict(i="try", to=None)] + b + [dict(i="endtry"), dict(i="obs")]
        elif r < 0.84:
            k = rng.randint(1, nscripts)
            args = {}
            for p, v in scripts[k - 1].items():
                if v == "~": 
                    if rng.random() < 0.9: args[p] = rng.choice(VALUES)
                elif rng.random() < 0.5: args[p] = rng.choice(VALUES)
            if rng.random() < 0.1: args["extra"] = "e"
            code.append(dict(i="call", s=k, args=args, rec=rng.random() < 0.5, name=rng.choice(["~", "~", "nm"]), rel=rng.choice([True, False, True, False, "link"])))
        elif r < 0.87: code.append(dict(i="raise", kind=rng.choice(["boom", "exit", "interrupt", "error"])))
        elif r < 0.90: code.append(dict(i="chdir", to=rng.choice(["@D/elsewhere", "@D/start"])))
        elif r < 0.95: code.append(dict(i="setparam", p=rng.choice(["x", "y"]), v="set"))
        else:
            bad = rng.random() < 0.2
            code.append(dict(i="op", mode=rng.choice(["~"] + MODES + (["9"] if bad else [])), owner=rng.choice(["~", "~"] + USERS + (["ghost"] if bad else [])), group=rng.choice(["~", "~"] + GROUPS)))
    return code

def fix_to(code):
    st = []
    for n, i in enumerate(code, 1):
        if i["i"] == "try": st.append(i)
        elif i["i"] == "endtry": st.pop()["to"] = n + 1
    return code

def program(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4])
    params = [{}] + [rng.choice([{}, {"x": "dx"}, {"x": "~"}, {"x": "~", "y": "dy"}, {"x": "dx", "y": "dy"}]) for _ in range(n - 1)]
    if rng.random() < 0.3: params[0] = {"x": "dx"}
    dirs = ["@D/a", "@D/b", "@D/a/sub", "@D/start"]
    prog = []
    for k in range(n):
        c = fix_to(body(rng, n, params, 3, rng.randint(2, 6), None))
        prog.append(dict(dir=rng.choice(dirs), name=f"s{k+1}", params=params[k], code=c))
    return dict(prog=prog, link=rng.random() < 0.15)

def programs(rng, n): return [program(rng) for _ in range(n)]
