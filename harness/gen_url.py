HOSTS = ["localhost", "web1", "a.b.example.com", "ssh", "s", "ss.h", "local", "10.0.0.1", "h_1", "my-host", "x--y", "local.net", "sshd", "xn--a", "UPPER", "vt"]
LITS = ["::1", "fe80::1", "2001:db8::ff:1"]
USERS = ["", "", "root", "u", "ssh", "a.b", "deploy-1", "s"]
PORTS = ["", "", "22", "2222", "0022", "1"]

def ssh_url(rng, host, form=None):
    """Writes down a reference; also returns the pieces."""
    u, p = rng.choice(USERS), rng.choice(PORTS)
    form = form or rng.choice(["bare", "bare", "short", "full", "full"])
    if form == "bare": p = ""
    elif rng.random() < 0.1: u = rng.choice(["a:b", "x:", "dom+u"])
    auth = (u + "@" if u else "") + host + (":" + p if p else "")
    return dict(bare="", short="ssh:", full="ssh://")[form] + auth

def host(rng, part, good):
    """One declared host around the given distinct host part."""
    lit = rng.random() < 0.2
    hp = f"[{part_lit(part)}]" if lit else part
    r = rng.random()
    mod = {}
    decl = rng.choice(["str", "dict", "obj"])
    name = None
    if r < 0.55: url = ssh_url(rng, hp, rng.choice(["short", "full"]) if lit else None)
    elif r < 0.7: url = rng.choice(["local:", "vt:"]) + part
    elif r < 0.73: url = "local:"
    elif r < 0.8 and not good:
        url = rng.choice([part + ":22", "http://" + part, "sshx://" + part, ":" + part, "SSH://" + part, "ssh2:" + part, "Local:" + part, "LOCAL:", "Ssh:" + part, "sSh:r@" + part, "[::1]", "root@" + part + ":22"])
        if rng.random() < 0.6: name, decl = "n" + part, rng.choice(["dict", "obj"])
    else:
        decl, name = rng.choice(["dict", "obj"]), "n" + part
        url = rng.choice([None, ssh_url(rng, hp, rng.choice(["short", "full"]) if lit else None), "local:" + part])
        k = rng.random()
        if k < 0.3: mod["url"] = ssh_url(rng, "m" + part, rng.choice(["short", "full", "bare"]))
        elif k < 0.5: mod["url"] = rng.choice(["local:", "vt:", "nope:", "vt", "local", "sshd:"]) + rng.choice(["", part])
        elif k < 0.95: mod["connector"] = rng.choice(["ssh", "ssh", "local", "vt"])
        if rng.random() < 0.5: mod["ssh_host"] = "k" + part
        if rng.random() < 0.5: mod["ssh_port"] = rng.choice([22, 2200, "23"])
    if name is None and decl != "str" and rng.random() < 0.3: name = "n" + part
    if decl != "str" and rng.random() < 0.3: mod["opts"] = rng.choice([[], ["-o", "StrictHostKeyChecking=no"], ["-4"], ["-i", "/some key"], ["-oBatchMode=yes", "-C"]])
    return dict(decl=decl, url=url, name=name, mod=mod)

def part_lit(part):
    return "::" + format(HOSTS.index(part) + 1, "x")

def url_cases(rng, n):
    res = []
    for _ in range(n):
        if rng.random() < 0.35:
            h = host(rng, rng.choice(HOSTS), rng.random() < 0.6)
            while h["decl"] != "str": h = host(rng, rng.choice(HOSTS), rng.random() < 0.6)
            res.append(dict(inv="url", hosts=[h], debug=rng.random() < 0.1))
            continue
        parts = rng.sample(HOSTS, rng.choice([1, 2, 2, 3]))
        good = rng.random() < 0.75
        hs, seen = [], set()
        for p in parts:
            h = host(rng, p, good)
            if h["url"] == "local:":
                if "local:" in seen or "localhost" in parts: continue
                seen.add("local:")
            hs.append(h)
        if hs: res.append(dict(inv="file", hosts=hs, debug=rng.random() < 0.1))
    for s in res:
        for h in s["hosts"]:
            h["uc"] = None if h["url"] is None else list(h["url"])
            h["nc"] = None if h["name"] is None else list(h["name"])
            m = h["mod"]
            h["mc"] = dict(url="~" if "url" not in m else list(m["url"]), connector=m.get("connector", "~"), ssh_host=list(m["ssh_host"]) if "ssh_host" in m else "~",
                           ssh_port=list(str(m["ssh_port"])) if "ssh_port" in m else "~", opts=parse_opts(m.get("opts", [])))
    return res

def parse_opts(o):
    """How ssh understands these options."""
    return {(): [], ("-o", "StrictHostKeyChecking=no"): [["o", "StrictHostKeyChecking=no"]], ("-4",): [["4", ""]], ("-i", "/some key"): [["i", "/some key"]],
            ("-oBatchMode=yes", "-C"): [["o", "BatchMode=yes"], ["C", ""]]}[tuple(o)]
