"""Random programs of assignments, calls and lookups (inputs only)."""
def V(t, s): return dict(t=t, s=s)
FALSY = [V("str", ""), V("int", "0"), V("NoneType", "None"), V("bool", "False"), V("list", "[]")]
CALLABLE = [V("type", "<class 'int'>"), V("builtin_function_or_method", "<built-in function len>")]
NAMES = ["v1", "v2", "v3", "tag"]
ODD = ["host", "inventory", "name", "url", "_p", "__q", "Params"]   # (a script that replaces defaults or current_defaults breaks itself)

def val(rng, who):
    r = rng.random()
    if r < 0.15: return V("str", rng.choice(["<&>", '"q', "it's", "{{ v1 }}", "%}", " ", "é&amp;", "-%", "\\", "#}"]) + who + rng.choice(["", " ", ">"]))
    if r < 0.22: return rng.choice(CALLABLE)
    return rng.choice(FALSY) if r < 0.45 else V("str", f"{who}{rng.randint(0, 9)}")

def body(rng, k, n, depth, size):
    code = []
    while len(code) < size:
        r = rng.random()
        if r < 0.28:
            nm = rng.choice(NAMES) if rng.random() < 0.7 else rng.choice(ODD)
            mod = rng.random() < 0.2 and nm in NAMES + ["_p"]
            if nm in ("defaults", "current_defaults", "Params", "name") and rng.random() < 0.5: continue
            code.append(dict(i="set", n=nm, v=V("module", "") if mod else val(rng, f"s{k}-")))
        elif r < 0.32: code.append(dict(i="del", n=rng.choice(NAMES + ["_p"])))
        elif r < 0.36: code.append(dict(i="sethost", n=rng.choice(NAMES), v=val(rng, "sh")))
        elif r < 0.58: code.append(dict(i="look", n=rng.choice(NAMES) if rng.random() < 0.65 else rng.choice(["_p", "__q", "defaults", "current_defaults", "Params", "name", "url", "nope"]), how=rng.choice(["get", "default", "has"])))
        elif r < 0.78:
            es = []
            for _ in range(rng.randint(1, 3)):
                form = rng.choice(["plain", "plain", "plain", "default", "defined", "host", "inventory"])
                nm = rng.choice(NAMES) if rng.random() < 0.75 else rng.choice(["name", "url", "_p", "defaults", "Params", "current_defaults", "nope"])
                if form == "inventory": nm = rng.choice(["tag", "v1", "nope"])
                es.append(dict(n=nm, form=form))
            ctx = []
            if rng.random() < 0.6:
                for nm in rng.sample(NAMES + ["host", "inventory", "name", "_p", "defaults", "nope"], rng.randint(0, 3)): ctx.append(dict(n=nm, v=val(rng, "c")))
            code.append(dict(i="tmpl", es=es, ctx=ctx, emptyctx=rng.random() < 0.5, via=rng.choice(["content", "file", "rel"]), old=rng.random() < 0.4))
        elif r < 0.86 and k < n: code.append(dict(i="call", s=rng.randint(k + 1, n)))
        elif r < 0.93 and depth > 0:
            b = body(rng, k, n, depth - 1, rng.randint(1, 4))
            if rng.random() < 0.5: b.append(dict(i="raise"))
            code += [dict(i="try", to=None)] + b + [dict(i="endtry"), dict(i="look", n=rng.choice(NAMES), how="get")]
        elif r < 0.94: code.append(dict(i="raise"))
    return code

def fix_to(code):
    st = []
    for n, i in enumerate(code, 1):
        if i["i"] == "try": st.append(i)
        elif i["i"] == "endtry": st.pop()["to"] = n + 1
    return code

def var_cases(rng, n):
    res = []
    for _ in range(n):
        k = rng.choice([1, 2, 2, 3])
        prog = [fix_to(body(rng, j, k, 2, rng.randint(3, 8))) for j in range(1, k + 1)]
        inv = dict(zz=V("str", "zz"))
        for nm in NAMES:
            if rng.random() < 0.35: inv[nm] = val(rng, "i")
        hosts = {}
        for h in ("h1", "h2"):
            if rng.random() < 0.2: hosts[h] = None; continue
            hosts[h] = dict(zz=V("str", "hz"))
            for nm in NAMES:
                if rng.random() < 0.35: hosts[h][nm] = val(rng, h + "-")
        res.append(dict(prog=prog, inv=inv, hosts=hosts))
    return res
