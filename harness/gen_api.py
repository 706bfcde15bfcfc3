"""Call trees of user defined operations. Inputs only."""
LEAF = ["success"] * 6 + ["failure", "failure", "operror", "operror", "none", "cpe", "exc", "nostate", "onlyinitial", "onlyfinal", "twice", "latefail", "mutefailure", "muteoperror"]
def tree(rng, depth):
    b = "nested" if depth > 0 and rng.random() < 0.55 else rng.choice(LEAF)
    how = rng.choice(["default", "default", "kw", "pos", "named", "posname"])
    check = True if how == "default" else rng.random() < 0.5
    kids = [tree(rng, depth - 1) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))] if b == "nested" else []
    if b == "nested" :
        for k in kids:
            if k["body"] in ("latefail", "twice", "onlyinitial", "onlyfinal"): k["body"] = "failure"
    return dict(body=b, check=check, how=how, changed=rng.random() < 0.5, onfail=rng.choice(["ignore", "propagate"]), kids=kids)
VALS = ["~", "a", "b", "true", "list", "bytes", "empty"]
def probe(rng):
    ks = ["k1", "k2", "k3", "k4"][:rng.randint(0, 4)]
    ini = [[k, rng.choice(VALS)] for k in ks]
    fin = [[k, v if rng.random() < 0.6 else rng.choice(VALS)] for k, v in ini]
    rng.shuffle(fin)
    return dict(initial=ini, final=fin, order=rng.random() < 0.7)
def api_cases(rng, n):
    res = []
    for _ in range(n):
        steps = []
        for _ in range(rng.randint(2, 6)):
            if rng.random() < 0.25: steps.append(dict(kind="probe", p=probe(rng)))
            else:
                t = tree(rng, rng.choice([0, 1, 2, 3]))
                if rng.random() < 0.04: t = dict(t, body="nohost", kids=[])
                steps.append(dict(kind="call", t=t))
        res.append(dict(steps=steps, args=dict(debug=rng.random() < 0.3, verbose=rng.choice([0, 1, 3]), changes=rng.random() < 0.2)))
    return res
