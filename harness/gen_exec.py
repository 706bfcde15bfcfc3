"""Scenario generator for remote commands (inputs only)."""
from gen_tunnel import TEXTS, CONTENTS
U = [None] * 4 + ["root", "0", "daemon", "1", "games", "nobody", "65534", "nouser", "99999", "web", "www", "4242", "num"]
G = [None] * 4 + ["root", "0", "daemon", "adm", "60", "video", "nogrp", "88888", "www", "site", "4343"]
M = [None] * 3 + ["0", "000", "22", "022", "0022", "077", "77", "027", "002", "777", "0o27", "9", "abc", "", "08"]
C = [None] * 3 + ["@D/dir", "@D/private", "rel", "@D/sp ace", "/", ".", "@D/file", "@D/missing", "@D/link", "/tmp"]
DC = [None] * 3 + ["@D/dir", "@D/private", "/", "@D/file", "@D/missing"]
SMALLC = [None, None] + [c for c in CONTENTS if not (c[0] in ("all", "rep") and c[-1] > 70000)]
def some(rng, xs, p):
    return rng.choice([x for x in xs if x is not None]) if rng.random() < p else None
VALID_U = ["root", "0", "daemon", "1", "games", "nobody", "65534", "web", "www", "4242", "3001", "3005"]
VALID_G = ["root", "0", "daemon", "adm", "60", "video", "www", "4343", "3004"]
VALID_M = ["0", "22", "022", "0022", "077", "027", "002", "0o27", "777"]
VALID_C = ["@D/dir", "rel", "@D/sp ace", "/", ".", "@D/link", "/tmp"]
def cmd(rng):
    invalid = rng.random() < 0.3
    bad = rng.random() < 0.03
    if invalid:
        user, group, umask, cwd = (some(rng, x, 0.4) for x in (U, G, M, C))
        dflt = dict(as_user=some(rng, U, 0.4), as_group=some(rng, G, 0.3), umask=some(rng, M, 0.3), cwd=some(rng, DC, 0.3))
    else:
        user, group, umask, cwd = (some(rng, x, p) for x, p in ((VALID_U, 0.45), (VALID_G, 0.35), (VALID_M, 0.4), (VALID_C, 0.4)))
        dflt = dict(as_user=some(rng, VALID_U, 0.4), as_group=some(rng, VALID_G, 0.4), umask=some(rng, VALID_M, 0.4), cwd=some(rng, ["@D/dir", "/", "/tmp", "@D/sp ace"], 0.4))
    rc = rng.choice(["0", "0", "0", "1", "2", "100", "126", "127", "255", "k9", "k15"])
    args = [rng.choice(TEXTS) for _ in range(rng.randint(0, 4))]
    if bad: args.append(rng.choice([["lone"], ["nul"]]))
    return dict(level="connector" if rng.random() < 0.35 else "conn", dflt=dflt,
                req=dict(user=user, group=group, umask=umask, cwd=cwd, args=args, input=rng.choice(SMALLC), capture=rng.random() < 0.75, check=rng.random() < 0.5, bad=bad,
                         rc=rc, rcnum=-int(rc[1:]) if rc[0] == "k" else int(rc), sout=rng.choice(["", "x", "a\\nb\\n", "\\377\\000z", "%%", "\\015\\012"]), serr=rng.choice(["", "e", "\\200\\n"])))
def exec_cases(rng, n):
    # who the dispatcher runs as: user, group, supplementary groups
    selves = [None] * 5 + [[0, 4, [44, 60]], [0, 0, [3010]], [5, 60, [3004]], [5, 60, []], [3001, 3010, [4]], [3002, 3003, [3011]]]
    return [dict(me=rng.choice(selves), cmds=[cmd(rng) for _ in range(rng.randint(3, 8))]) for _ in range(n)]
