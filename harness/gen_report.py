"""Operations, contents and output options. Inputs only."""
LINE = ["a", "b", "c", "SP", "TAB", "CR", "+", "-", "@@", "BACKSL", "EACUTE"]
ODD = ["NUL", "ESC", "BEL", "DEL", "XFF", "NEL", "CJK", "SMILE", "LSEP", "RLO", "TAGA"]
def line(rng): return [rng.choice(LINE if rng.random() < 0.85 else ODD) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
def join(lines): return [t for i, l in enumerate(lines) for t in (["NL"] if i else []) + l]
def contents(rng):
    """an old and a new content, usually similar"""
    pool = [line(rng) for _ in range(rng.choice([2, 3, 6]))]
    a = [rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 4, 8, 14, 25]))]
    if a and rng.random() < 0.6: a[-1] = []
    b = list(a)
    for _ in range(rng.choice([0, 1, 1, 2, 4])):
        i = rng.randint(0, len(b)); k = rng.choice("iird")
        if k == "i": b.insert(i, line(rng) if rng.random() < 0.5 else rng.choice(pool))
        elif b and k == "r": b[min(i, len(b) - 1)] = line(rng)
        elif b: del b[min(i, len(b) - 1)]
    old, new = join(a), join(b)
    r = rng.random()
    if r < 0.12: old = ["ABSENT"]
    elif r < 0.2: new = ["ABSENT"]
    elif r < 0.3: old, new = (join([line(rng)]), new) if rng.random() < 0.5 else (old, [])
    return old, new
KEYS = ["exists", "mode", "owner", "a", "sha512", "averyverylongkey", "averyverylongkez2", "twelve_chars", "k1"]
VALS = ["~", "~", "/var/lib/one", "/var/lib/two", "long", "longb", "true", "false", "int0", "int1", "empty", "bytes", "list", "long", "longb", "nine", "ten", "emptylist", "sp", "eacute", "x", "755"]
def op(rng):
    ks = rng.sample(KEYS, rng.choice([0, 1, 2, 3, 5]))
    if "averyverylongkey" in ks and "averyverylongkez2" in ks: ks.remove("averyverylongkez2")
    ini = [[k, rng.choice(VALS)] for k in ks]
    fin = [[k, v if rng.random() < 0.5 else rng.choice(VALS)] for k, v in ini]
    if rng.random() < 0.3: rng.shuffle(fin)
    diffs = []
    for i in range(rng.choice([0, 0, 1, 1, 2, 3])):
        o, n = contents(rng)
        diffs.append(dict(file=rng.choice(["/etc/x", "/a b", "file: y", "rel/z"]), old=o, new=n))
    return dict(kind="op", desc=rng.choice(["/etc/x", "['a', 'b']", "some thing (x)", "x: y"]), name=rng.choice(["~", "~", "my name", "n", "0"]), check=rng.random() < 0.5, early=rng.choice(["no"] * 9 + ["exc"]), initial=ini, final=fin, diffs=diffs,
                end=rng.choice(["success"] * 8 + ["failure", "operror", "exc"]), msg=rng.choice(["boom", "it failed: 'x' (y)", "0"]), indent=rng.choice([0, 0, 1, 2, 3]), nested=False)
def real(rng, i):
    o, n = contents(rng)
    if n == ["ABSENT"]: n = ["a"]
    how = rng.choice(["bytes", "file", "line"])
    if how == "line":     # what the file must contain after adding the line
        if o[-1:] == ["CR"]: o = o[:-1]
        n = ([] if o == ["ABSENT"] else o if o[-1:] in ([], ["NL"]) else o + ["NL"]) + ["unique", "NL"]
    return dict(kind="real", file=rng.choice([f"f{i}", f"g {i}.txt", f".h{i}"]), old=o, new=n, mode0=rng.choice(["644", "600"]), mode=rng.choice(["644", "600", "640"]), how=how, name=rng.choice(["~", "my name"]), check=True, indent=rng.choice([0, 1, 2]), nested=False)
def report_cases(rng, n):
    res = []
    for _ in range(n):
        args = dict(verbose=rng.choice([0, 0, 1, 2, 99]), changes=rng.random() < 0.85, diff=rng.random() < 0.7, no_color=rng.random() < 0.5, dry=rng.random() < 0.25)
        steps = []
        for i in range(rng.randint(3, 7)):
            r = rng.random()
            if r < 0.35:
                o, nw = contents(rng)
                steps.append(dict(kind="diff", file=rng.choice(["/etc/x", "a b", "x: y"]), old=o, new=nw))
            elif r < 0.75: steps.append(op(rng))
            else: steps.append(real(rng, i))
            if steps[-1]["kind"] != "diff" and rng.random() < 0.25: steps[-1]["nested"] = True
        cli = dict(on=False)
        if rng.random() < 0.4:
            opts = rng.choices(["-v", "-vv", "--verbose", "--no-changes", "--diff", "--diff", "--debug", "--no-color", "--dry", "--dry-run", "--pretend"], k=rng.choice([0, 1, 1, 2, 3]))
            at = rng.choice([0, len(opts), rng.randint(0, len(opts))])
            cli = dict(on=True, before=opts[:at], after=opts[at:], env=rng.random() < 0.2, tty=rng.random() < 0.8)
            args = {}
        res.append(dict(args=args, cli=cli, steps=steps))
    return res
