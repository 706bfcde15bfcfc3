"""Scenarios for account, package and service operations. Inputs only."""
def some(rng, xs, p=0.5): return [x for x in xs if rng.random() < p]

def account(rng, uid, group, groups, all_groups):
    return dict(uid=uid, group=group, groups=sorted(some(rng, all_groups, 0.3)), comment=rng.choice(["", "", "some text"]), home=rng.choice(["/dev/null", "/home/x", "/srv/a b"]),
                shell=rng.choice(["/sbin/nologin", "/bin/bash", ""]), hash=rng.choice(["!", "*", "$6$abc$def", ""]), system=rng.random() < 0.3, made_home=False)
def acc_db(rng):
    groups = dict(root=dict(gid=0, system=True), users=dict(gid=100, system=True))
    for n, gid in (("video", 61044), ("audio", 61045), ("wheel", 61010), ("alice", 61001), ("bob", 61002), ("10", 61077)):
        if rng.random() < (0.15 if n == "10" else 0.6): groups[n] = dict(gid=gid, system=rng.random() < 0.5)
    users = dict(root=dict(uid=0, group="root", groups=[], comment="root", home="/root", shell="/bin/bash", hash="*", system=True, made_home=False))
    for n, uid in (("alice", 61001), ("bob", 61002), ("carol", 61003)):
        if rng.random() < 0.6:
            g = n if n in groups and rng.random() < 0.6 else rng.choice(sorted(groups))
            users[n] = account(rng, uid, g, [], sorted(groups))
    order = list(groups); rng.shuffle(order)      # the order of the database
    groups = {g: groups[g] for g in order}
    return dict(users=users, groups=groups, commands=["useradd", "usermod", "userdel", "groupadd", "groupmod", "groupdel"], homes_removed=[])
def user_op(rng):
    kw = dict(user=rng.choice(["alice"] * 4 + ["bob", "bob", "carol", "dave", "root"]))
    if rng.random() < 0.2: kw["present"] = rng.choice([False, False, True])
    if kw["user"] == "root" and kw.get("present") is False: kw["present"] = True
    def maybe(k, xs, p=0.3):
        if rng.random() < p: kw[k] = rng.choice(xs)
    maybe("uid", [61001, 61002, 61003, 61050, 0, 1234]); maybe("group", ["users", "video", "alice", "root", "ghost", "100", "61044", "61045"], 0.35)
    if rng.random() < 0.4:
        kw["groups"] = [rng.choice(["video", "audio", "wheel", "users", "alice", "root"]) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
        if rng.random() < 0.05: kw["groups"].append("ghost")
    if rng.random() < 0.3: kw["append_groups"] = rng.random() < 0.8
    maybe("system", [True, False], 0.2); maybe("password_hash", ["", "!", "$6$new$hash", "*", "-x"]); maybe("home", ["/home/x", "/dev/null", "/new", "relative", ""], 0.25)
    maybe("shell", ["/bin/bash", "/bin/zsh", "", "-sh"], 0.3); maybe("comment", ["", "some text", "Ünï", "a:b", "--comment", "0"], 0.3)
    for k in ("uid", "group", "groups", "home", "comment"):
        if rng.random() < 0.05: kw[k] = None
    return dict(kind="user", kw=kw)
def group_op(rng):
    kw = dict(group=rng.choice(["alice", "video", "video", "audio", "wheel", "newgroup", "root", "users"]))
    if rng.random() < 0.3: kw["present"] = rng.choice([False, False, True])
    if rng.random() < 0.5: kw["gid"] = rng.choice([0, 61044, 61045, 61099, 100, 1234])
    if rng.random() < 0.25: kw["system"] = rng.random() < 0.7
    return dict(kind="group", kw=kw)
def fault(rng, k=3, any_p=0.4):
    if rng.random() < any_p: return dict(of="any", at=rng.randint(1, k + 3), when=rng.choice(["before", "after"]), exc=rng.choice(["os", "io"]))
    return dict(of="mod", at=rng.randint(1, k), when=rng.choice(["before", "after"]), exc=rng.choice(["rc", "rc", "os", "io"]), rc=rng.choice([1, 1, 2, 10, 127, 255]))
def steps(rng, mk, n, kinds, ext=None):
    res = []
    for i in range(n):
        if ext and res and rng.random() < 0.15: res.append(dict(kind="ext", x=ext(rng)))
        o, kind = mk(rng), rng.choice(kinds)
        ck = rng.choice([None, None, True, False])
        st = dict(kind=kind, o=o, check=ck, id=i)
        if kind == "fault": st["fault"] = fault(rng)
        res.append(st)
        if kind != "real" and rng.random() < 0.75: res.append(dict(kind="real", o=o, check=ck, id=i))
        if rng.random() < 0.5: res.append(dict(kind="real", o=o, check=ck, id=i, again=res[-1]["kind"] == "real"))
    return res
def args(rng): return dict(diff=rng.random() < 0.2, changes=rng.random() < 0.2, verbose=rng.choice([0, 0, 1, 2]), debug=rng.random() < 0.05)
def acc_ext(rng):
    u = rng.choice(["alice", "bob", "carol"])
    if rng.random() < 0.2: return dict(act="del", user=u)
    return dict(act="mod", user=u, set=rng.choice([dict(comment="changed"), dict(groups=[]), dict(groups=["video"]), dict(shell="/bin/false"), dict(hash="!locked"), dict(group="users")]))
def acc_cases(rng, n, kinds=("real", "real", "real", "dry", "fault")):
    return [dict(kind="acc", init=acc_db(rng), args=args(rng), steps=steps(rng, lambda r: user_op(r) if r.random() < 0.7 else group_op(r), rng.randint(2, 5), kinds, acc_ext)) for _ in range(n)]

# --- packages ------------------------------------------------------------------------------------
NAMES = ["htop", "nano", "git", "big", "app-misc/foo", "-odd", "libx++", "v", "vim", "git-lfs"]
OPTS = dict(apt=["--no-install-recommends", "-q"], pacman=["--needed", "--quiet"], portage=["--quiet-build", "--nospinner"])
TOOL = dict(apt="apt-get", pacman="pacman", portage="emerge")
def pkg_init(rng, cmds):
    inst = sorted(some(rng, NAMES, rng.choice([0.2, 0.5, 0.8])))
    st = {n: "hold ok installed" for n in inst if rng.random() < 0.1}
    st.update({n: rng.choice(["deinstall ok config-files", "install ok half-installed", "unknown ok not-installed", "install ok unpacked"]) for n in NAMES if n not in inst and rng.random() < 0.25})
    return dict(commands=cmds, installed=inst, world=sorted(some(rng, inst, 0.5)), avail=sorted(NAMES), confirm=["big"], status=st, users={}, groups={})
def pkg_cases(rng, n, kinds=("real", "real", "real", "dry", "fault")):
    res = []
    for _ in range(n):
        via = rng.choice(["apt", "pacman", "portage", "system"])
        cmds = some(rng, list(TOOL.values()), 0.4) if via == "system" else [TOOL[via]] if rng.random() < 0.95 else []
        if via == "system" and not cmds and rng.random() < 0.8: cmds = [rng.choice(list(TOOL.values()))]
        rng.shuffle(cmds)
        def mk(r):
            ps = [r.choice(NAMES) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
            if r.random() < 0.06: ps.append("unknown-package")
            kw = dict(packages=ps)
            if r.random() < 0.05: kw["packages"] = r.choice(["htop", "v"])
            if r.random() < 0.5: kw["present"] = r.random() < 0.35
            if via in OPTS and r.random() < 0.3: kw["opts"] = some(r, OPTS[via], 0.6)
            if via == "portage" and r.random() < 0.4: kw["oneshot"] = r.random() < 0.7
            return dict(via=via, kw=kw)
        res.append(dict(kind="pkg", init=pkg_init(rng, cmds), args=args(rng), steps=steps(rng, mk, rng.randint(2, 4), kinds)))
    return res

# --- services -------------------------------------------------------------------------------------
def unit(rng): return dict(active=rng.choice(["active", "active", "inactive", "inactive", "failed", "activating", "deactivating", "reloading"]), enabled=rng.choice(["enabled", "enabled", "disabled", "disabled", "masked", "static"]))
def svc_init(rng, cmds):
    us = {sc: {n: unit(rng) for n in ("a.service", "b.service", "-c.service", "t.timer") if rng.random() < 0.85} for sc in ("system", "user")}
    for sc in us:
        for n in us[sc]:
            if us[sc][n]["enabled"] == "static" : us[sc][n]["enabled"] = "disabled"
            if rng.random() < 0.06: us[sc][n]["broken"] = True
    return dict(commands=cmds, units=us, users={}, groups={})
def svc_cases(rng, n, kinds=("real", "real", "real", "dry", "fault")):
    res = []
    for _ in range(n):
        def mk(r):
            via = r.choice(["systemd"] * 6 + ["system"] * 3 + ["daemon_reload"])
            kw = {}
            if via != "daemon_reload":
                kw["service"] = r.choice(["a.service", "a.service", "b.service", "-c.service", "t.timer", "gone.service"] )
                if r.random() < 0.75: kw["state"] = r.choice(["started", "started", "stopped", "stopped", "restarted", "reloaded", None, "running", "start", ""] if r.random() < 0.3 else ["started", "stopped", "restarted", "reloaded"])
                if r.random() < 0.6: kw["enabled"] = r.choice([True, True, False, False, None])
            if via != "system" and r.random() < 0.5: kw["user_mode"] = r.random() < 0.7
            return dict(via=via, kw=kw)
        res.append(dict(kind="svc", init=svc_init(rng, ["systemctl"] if rng.random() < 0.95 else []), args=args(rng), steps=steps(rng, mk, rng.randint(2, 5), kinds)))
    return res
