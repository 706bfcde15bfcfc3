"""Scenario generators for the inventory properties (inputs only; no expectations)."""
import itertools, random
NAMES = ["a", "b", "c", "d", "e", "f", "zz", "m-1"]

def base(vars=("v",)):
    return dict(auto=False, shared=False, groups=[], hosts=[], bad="none", vars=list(vars), act={})

def acts_for(scn):
    full = {}
    for k in ["inv"] + ["d:" + h["name"] for h in scn["hosts"]] + ["g:" + g["name"] for g in scn["groups"]] + ["h:" + h["name"] for h in scn["hosts"]]:
        full[k] = {v: scn["act"].get(k, {}).get(v, "none") for v in scn["vars"]}
    scn["act"] = full
    return scn

def rand_relation(rng, names, density, acyclic=True):
    """after/before lists; acyclic unless requested otherwise."""
    order = names[:]
    rng.shuffle(order)
    g = {n: dict(name=n, after=[], before=[], file="default", form=rng.choice(["obj", "dict"])) for n in names}
    for i, j in itertools.combinations(range(len(order)), 2):
        if rng.random() < density:
            p, c = order[i], order[j]
            if not acyclic and rng.random() < 0.3: p, c = c, p
            r = rng.random()
            if r < 0.5: g[c]["after"].append(p)
            elif r < 0.95: g[p]["before"].append(c)
            else: g[c]["after"] += [p, p]; g[p]["before"].append(c)
    decls = [g[n] for n in names]
    rng.shuffle(decls)
    for x in decls:
        if not x["after"] and not x["before"] and rng.random() < 0.5: x["form"] = "str"
    return decls

def chains(rng, names):
    """several chains of different length plus a few cross edges: the shapes rank arithmetic gets wrong"""
    g = {n: dict(name=n, after=[], before=[], file="default", form=rng.choice(["obj", "dict"])) for n in names}
    pool = names[:]
    rng.shuffle(pool)
    while pool:
        k = min(len(pool), rng.choice([1, 2, 2, 3, 4]))
        ch, pool = pool[:k], pool[k:]
        for p, c in zip(ch, ch[1:]):
            if rng.random() < 0.5: g[c]["after"].append(p)
            else: g[p]["before"].append(c)
    order = names[:]
    decls = [g[n] for n in order]
    rng.shuffle(decls)
    return decls

def add_all(rng, scn, p=0.5):
    if rng.random() < p:
        scn["groups"].append(dict(name="all", after=[], before=[], file="default", form="obj"))

def rand_case(rng, n, mode):
    vars = rng.choice([["v"], ["v", "w"], ["v", "s"], ["w"], ["v_", "w2"], ["vV", "s_", "state"], ["w_x", "v__"]])
    scn = base(vars)
    names = NAMES[:]
    rng.shuffle(names)
    names = names[:n]
    if mode == "auto":
        scn["auto"] = True
        scn["groups"] = [dict(name=x, after=[], before=[], file=rng.choice(["default", "default", "nofile"]), form="obj") for x in names]
        add_all(rng, scn)
    else:
        scn["groups"] = chains(rng, names) if rng.random() < 0.5 else rand_relation(rng, names, rng.choice([0.15, 0.3, 0.6]))
        add_all(rng, scn)
        for g in scn["groups"]:
            if rng.random() < 0.12: g["file"] = rng.choice(["nofile", "explicit"]); g["form"] = "obj"
    nh = rng.choice([1, 1, 2, 3])
    hnames = rng.sample(["h1", "h2", "h3", "zeta", "alpha", "B", "db.example.com", "10", "web-1", "_x"], nh)
    for i in range(nh):
        k = rng.randint(0, n)
        m = rng.sample(names, k) if rng.random() < 0.7 else names[:]
        if rng.random() < 0.2 and m: m.append(rng.choice(m))
        if rng.random() < 0.2: m.append("all")
        hn = hnames[i]
        h = dict(name=hn, groups=m, file="default", form=rng.choice(["obj", "dict"]))
        r = rng.random()
        if r < 0.3: h.update(named=False, url=rng.choice([hn, f"ssh://{hn}", f"ssh://root@{hn}:22"]))
        elif r < 0.5: h.update(url=f"ssh://other{i}")
        if rng.random() < 0.1: h["file"] = "explicit"
        scn["hosts"].append(h)
    if nh == 1 and rng.random() < 0.2: scn["hosts"][0]["file"] = "nofile"
    if rng.random() < 0.15: scn["groups_dir"] = "gg"
    if rng.random() < 0.15: scn["hosts_dir"] = "hh/x"
    return scn

def fill_acts(rng, scn, p_touch, p_append):
    def pick(v, appendable=True):
        if rng.random() >= p_touch: return "none"
        if v[0] in "vw" and appendable and rng.random() < p_append: return "append"
        return "assign"
    for v in scn["vars"]:
        act = scn["act"]
        act.setdefault("inv", {})[v] = "assign" if rng.random() < p_touch / 2 else "none"
        for h in scn["hosts"]:
            act.setdefault("d:" + h["name"], {})[v] = "assign" if rng.random() < p_touch / 3 else "none"
            act.setdefault("h:" + h["name"], {})[v] = pick(v)
        nones = 0
        for g in scn["groups"]:
            a = pick(v)
            if a == "assign" and nones == 0 and rng.random() < 0.1: a = "assignnone"; nones += 1
            act.setdefault("g:" + g["name"], {})[v] = a
    if rng.random() < 0.3: use_equal(rng, scn)
    return acts_for(scn)

def use_equal(rng, scn):
    """Some assignments assign an equal value (as a new object)."""
    for k, a in scn["act"].items():
        for v in a:
            if k.startswith(("g:", "h:")) and v[0] in "vw" and a[v] == "assign" and rng.random() < 0.7: a[v] = "assigneq"

def unordered_safe(rng, scn):
    """All-append variants: accepted regardless of the order."""
    for v in scn["vars"]:
        if v[0] == "s": continue
        scn["act"]["inv"][v] = "assign"
        for g in scn["groups"]:
            if scn["act"]["g:" + g["name"]][v] != "none": scn["act"]["g:" + g["name"]][v] = "append"
    return scn

def order_cases(rng, n):
    """C01: no variables in conflict, just the order."""
    res = []
    for _ in range(n):
        scn = rand_case(rng, rng.choice([2, 3, 4, 5, 6, 7]), "auto" if rng.random() < 0.1 else "decl")
        res.append(fill_acts(rng, scn, 0, 0))
    return res

def var_cases(rng, n):
    res = []
    for _ in range(n):
        scn = rand_case(rng, rng.choice([1, 2, 3, 4, 5]), "auto" if rng.random() < 0.15 else "decl")
        scn = fill_acts(rng, scn, rng.choice([0.3, 0.6, 0.9]), rng.choice([0.4, 0.9]))
        if rng.random() < 0.6: scn = unordered_safe(rng, scn)
        if rng.random() < 0.2 and len(scn["hosts"]) > 1:
            scn["shared"] = True
            for h in scn["hosts"]:
                for v in scn["vars"]: scn["act"]["d:" + h["name"]][v] = "assign"
        res.append(scn)
    return res

def conflict_cases(rng, n):
    res = []
    for _ in range(n):
        scn = rand_case(rng, rng.choice([2, 3, 4, 5, 6, 7]), "auto" if rng.random() < 0.1 else "decl")
        scn["vars"] = scn["vars"][:rng.choice([1, 1, 2])]
        scn = fill_acts(rng, scn, 0, 0)
        # few touching groups, so that accepted and rejected inventories are both frequent
        for v in scn["vars"]:
            k = rng.choice([1, 2, 2, 2, 3])
            gs = rng.sample(scn["groups"], min(k, len(scn["groups"])))
            for j, g in enumerate(gs):
                a = rng.choice(["assign", "append"]) if v[0] in "vw" else "assign"
                if a == "assign" and j == 0 and rng.random() < 0.15: a = "assignnone"
                scn["act"]["g:" + g["name"]][v] = a
            if rng.random() < 0.3: scn["act"]["inv"][v] = "assign"
            for h in scn["hosts"]:
                if rng.random() < 0.2: scn["act"]["d:" + h["name"]][v] = "assign"
                if rng.random() < 0.2: scn["act"]["h:" + h["name"]][v] = "assign"
        if rng.random() < 0.3: use_equal(rng, scn)
        res.append(scn)
    for _ in range(n // 2):
        # one value, defined early, touched by most groups of a mostly ordered inventory
        names = rng.sample(NAMES, rng.choice([3, 4, 4, 5]))
        scn = base([rng.choice(["v", "w"])])
        scn["groups"] = rand_relation(rng, names, rng.choice([0.4, 0.6, 0.8]))
        scn["hosts"] = [dict(name="h1", groups=names, file="default", form="obj")]
        scn = fill_acts(rng, scn, 0, 0)
        v = scn["vars"][0]
        scn["act"][rng.choice(["inv", "d:h1"])][v] = "assign"
        for x in names: scn["act"]["g:" + x][v] = rng.choice(["append", "append", "append", "assign", "assigneq", "none"])
        res.append(scn)
    return res

BAD = ["host-wrong-type", "host-without-name", "host-unknown-field", "host-unknown-schema", "group-wrong-type", "group-without-name", "hosts-not-a-list", "hosts-undefined"]
def invalid_cases(rng, n):
    res = []
    for _ in range(n):
        scn = rand_case(rng, rng.choice([1, 2, 3, 4, 5, 6]), "decl")
        kind = rng.choice(["none", "dup-host", "dup-group", "unk-host-group", "unk-order", "self", "cycle", "cycle", "cycle", "missing-host", "missing-group", "missing-unused", "bad", "random", "no-groups"])
        gs = scn["groups"]
        g = rng.choice(gs)
        if kind == "dup-host":
            h = dict(rng.choice(scn["hosts"]))
            h.update(named=True, groups=[]); h.pop("url", None)
            scn["hosts"].insert(rng.randint(0, len(scn["hosts"])), h)
        elif kind == "dup-group": gs.insert(rng.randint(0, len(gs)), dict(g))
        elif kind == "unk-host-group": rng.choice(scn["hosts"])["groups"].append("nope")
        elif kind == "unk-order": g["form"] = "obj"; g[rng.choice(["after", "before"])].append("nope")
        elif kind == "self": g["form"] = "obj"; g[rng.choice(["after", "before"])].append(g["name"])
        elif kind == "cycle":
            names = [x["name"] for x in gs]
            rng.shuffle(names)
            cyc = names[:rng.randint(2, max(2, len(names)))]
            by = {x["name"]: x for x in gs}
            for p, q in zip(cyc, cyc[1:] + cyc[:1]):
                if rng.random() < 0.5: by[q]["after"].append(p); by[q]["form"] = "obj"
                else: by[p]["before"].append(q); by[p]["form"] = "obj"
        elif kind == "missing-host": rng.choice(scn["hosts"])["file"] = "missing"
        elif kind == "missing-group":
            g["file"] = "missing"; g["form"] = "obj"; rng.choice(scn["hosts"])["groups"].append(g["name"])
        elif kind == "missing-unused":
            g["file"] = "missing"; g["form"] = "obj"
        elif kind == "no-groups":
            scn["groups"] = []
            for h in scn["hosts"]:
                if rng.random() < 0.5: h["groups"] = []
        elif kind == "bad": scn["bad"] = rng.choice(BAD)
        elif kind == "random":
            scn["groups"] = rand_relation(rng, [x["name"] for x in gs if x["name"] != "all"] or ["a"], 0.3, acyclic=False)
        res.append(fill_acts(rng, scn, 0, 0))
    for url, name in [("h1", "h1"), ("ssh://root@h1:22", "h1"), ("ssh://h1", "h1")]:
        s = base([]); s["immediate"] = url
        s["hosts"] = [dict(name=name, groups=[], file="nofile", form="str", url=url)]
        res.append(acts_for(s))
    return res

def small_exhaustive(limit=None, rng=None):
    """every acyclic relation on three groups x membership x action per group (after-spelling)"""
    out = []
    names = ["a", "b", "c"]
    pairs = [(p, q) for p in names for q in names if p != q]
    for mask in range(64):
        E = [pairs[i] for i in range(6) if mask >> i & 1]
        for mem in itertools.chain.from_iterable(itertools.combinations(names, k) for k in (2, 3)):
            for acts in itertools.product(["none", "assign", "append"], repeat=3):
                out.append((E, mem, acts))
    if limit is not None and limit < len(out):
        out = rng.sample(out, limit)
    res = []
    for E, mem, acts in out:
        s = base(["v"])
        s["groups"] = [dict(name=n, after=[p for p, q in E if q == n], before=[], file="default", form="obj") for n in names]
        s["hosts"] = [dict(name="h1", groups=list(mem), file="default", form="obj")]
        s["act"] = {"g:" + n: {"v": a} for n, a in zip(names, acts)}
        res.append(acts_for(s))
    return res

def inspect_cases(rng, n):
    """C25: valid inventories of every kind, some that are not valid"""
    res = var_cases(rng, n * 3 // 4) + conflict_cases(rng, n // 12) + invalid_cases(rng, n // 12)
    res = [s for s in res if not s.get("immediate")]
    for s in res:
        s["columns"] = rng.choice([20, 80, 100, 240])
        s["nocolor"] = rng.choice(["no", "no", "env", "before", "after", "notty"])
        s["cwd"] = rng.choice(["abs", "rel", "sub"])
        s["kinds"] = {v: dict(v="list", w="dict", s="str")[v[0]] for v in s["vars"]}
    return res
