def main_cases(rng, n):
    res = []
    pool = ["h1", "h2", "h3", "h4", "web-1", "a.b", "b", "h", "1", "h11", "x.a.b"]
    for _ in range(n):
        hosts = rng.sample(pool, rng.choice([1, 2, 2, 3, 3, 4]))
        inv = "url" if len(hosts) == 1 and rng.random() < 0.5 else "file"
        r = rng.random()
        if r < 0.3: sel = []
        elif r < 0.55: sel = rng.sample(hosts, rng.randint(1, len(hosts)))
        elif r < 0.8: sel = [rng.choice(hosts) for _ in range(rng.randint(1, 5))]
        else:
            sel = [rng.choice(hosts + ["ghost", "", "h", "H1", " h1", "a", ".b", "eb-1"]) for _ in range(rng.randint(1, 4))]
        fate, how = {}, {}
        p = rng.choice([0.0, 0.2, 0.5])
        for h in hosts:
            fate[h] = rng.choice(["noconnect", "noident", "script", "script", "killed"]) if rng.random() < p else "ok"
            how[h] = {"noconnect": rng.choice(["exit", "closed", "nocmd"]), "script": rng.choice(["exit", "interrupt", "cmd", "op", "raise"])}.get(fate[h], "")
        res.append(dict(hosts=hosts, inv=inv, sel=sel, fate=fate, how=how, flag=rng.choice(["-H", "--hosts"]), abs=rng.random() < 0.5,
                        opts=rng.choice([[], [], ["--dry"], ["-v"], ["--debug"], ["--no-color", "--diff"]])))
    return res
