"""A simulated host for operations that manage accounts, packages and services.

Nothing here touches the real system: the host's tools are interpreted against a dictionary.
Unknown tools and options fail like a missing tool or a usage error would.
"""
import copy, getopt, os, subprocess
from fora.connectors.connector import CompletedRemoteCommand, Connector, GroupEntry, UserEntry

class Sim:
    def __init__(self, state, scratch):
        self.s, self.scratch = state, scratch
        self.calls, self.mods, self.mod_log, self.acts, self.opts = [], 0, [], [], []
        self.fault, self.hit, self.nmod, self.ncall = None, False, 0, 0
    def begin(self, fault=None):
        self.calls, self.mods, self.mod_log, self.acts, self.opts = [], 0, [], [], []
        self.fault, self.hit, self.ncall, self.nmod = fault, False, 0, 0
    def snapshot(self): return copy.deepcopy(self.s)
    def call(self, argv, dflt=None):
        """Returns (rc, stdout, stderr); raises OSError for a transport level fault."""
        argv = [a if isinstance(a, str) else os.fsdecode(a) for a in argv]
        self.calls.append(argv)
        mod, apply = self.plan(argv)
        self.ncall += 1
        if mod: self.nmod += 1
        f = self.fault
        hit = f and not self.hit and ((f["of"] == "any" and self.ncall == f["at"]) or (f["of"] == "mod" and mod and self.nmod == f["at"]))
        if hit:
            self.hit = True
            if f["when"] == "after": self.do(mod, apply, argv)
            if f["exc"] == "os": raise OSError("injected fault")
            if f["exc"] == "io": raise IOError("connection lost")
            return f.get("rc", 1), b"", b"injected fault"
        return self.do(mod, apply, argv)
    def do(self, mod, apply, argv):
        before = copy.deepcopy(self.s) if mod else None
        rc, out, err = apply()
        if mod:
            self.mods += 1; self.mod_log.append(argv)
            if rc != 0 and not getattr(self, "partial", False): self.s.clear(); self.s.update(before)
        return rc, out, err
    def plan(self, argv):
        """(modifying?, function that carries it out)"""
        tool = os.path.basename(argv[0]) if argv else ""
        fn = getattr(self, "t_" + tool.replace("-", "_"), None)
        if fn is None: return False, lambda: (-127, b"", b"command not found")
        try: return fn(argv[1:])
        except (getopt.GetoptError, IndexError, ValueError) as e:
            m = str(e).encode()
            return False, lambda: (2, b"", m)
    # --- a shell only gets to see which commands exist -------------------------------------
    def t_bash(self, a): return self.shell("bash", a)
    def t_sh(self, a): return self.shell("sh", a)
    def t_which(self, a):
        have = [x for x in a if x in self.s["commands"]]
        return False, lambda: (0 if len(have) == len(a) else 1, "".join(f"/usr/bin/{x}\n" for x in have).encode(), b"")
    def shell(self, sh, a):
        def go():
            d = os.path.join(self.scratch, "stubs")
            os.makedirs(d, exist_ok=True)
            for n in os.listdir(d): os.unlink(os.path.join(d, n))
            for n in self.s["commands"]:
                with open(os.path.join(d, n), "w") as f: f.write("#!/bin/sh\nexit 127\n")
                os.chmod(os.path.join(d, n), 0o755)
            for n in ("which", "env", "test", "cat", "echo", "true", "false", "printf", "grep"):
                for p in ("/usr/bin/", "/bin/"):
                    if os.path.exists(p + n): os.symlink(p + n, os.path.join(d, n)); break
            r = subprocess.run([f"/bin/{sh}"] + a, env=dict(PATH=d, LC_ALL="C"), cwd=self.scratch, capture_output=True, stdin=subprocess.DEVNULL, timeout=20)
            return r.returncode, r.stdout, r.stderr
        return False, go
    # --- accounts ----------------------------------------------------------------------------
    def gname(self, g):
        gs = self.s["groups"]
        if g in gs: return g
        return next((n for n, v in gs.items() if g.isdigit() and v["gid"] == int(g)), None)
    def t_getent(self, a):
        db, keys = a[0], a[1:]
        def go():
            out, bad = [], False
            for k in keys:
                if db == "passwd":
                    u = next((n for n, v in self.s["users"].items() if n == k or str(v["uid"]) == k), None)
                    if u is None: bad = True; continue
                    v = self.s["users"][u]
                    out.append(f"{u}:x:{v['uid']}:{self.s['groups'][v['group']]['gid']}:{v['comment']}:{v['home']}:{v['shell']}")
                else:
                    g = self.gname(k)
                    if g is None: bad = True; continue
                    out.append(f"{g}:x:{self.s['groups'][g]['gid']}:" + ",".join(n for n, v in self.s["users"].items() if g in v["groups"]))
            return (2 if bad else 0), "".join(o + "\n" for o in out).encode(), b""
        return False, go
    UOPTS = ("ru:Ug:G:c:d:s:p:mMNoaLk:b:e:f:", ["system", "uid=", "user-group", "gid=", "groups=", "comment=", "home-dir=", "home=", "shell=", "password=", "create-home", "no-create-home", "no-user-group", "non-unique", "append", "lock", "unlock"])
    def uopts(self, a):
        o, rest = getopt.gnu_getopt(a, *self.UOPTS)
        short = {"-r": "system", "-u": "uid", "-U": "user-group", "-g": "gid", "-G": "groups", "-c": "comment", "-d": "home", "-s": "shell", "-p": "password", "-m": "create-home", "-M": "no-create-home", "-N": "no-user-group", "-o": "non-unique", "-a": "append", "-L": "lock"}
        d = {}
        for k, v in o:
            k = short.get(k, k.lstrip("-"))
            d["home" if k == "home-dir" else k] = v
        if len(rest) != 1: raise ValueError("usage")
        return d, rest[0]
    def check_attrs(self, d, user):
        us = self.s["users"]
        for k in ("comment", "home", "shell", "password"):
            if k in d and (":" in d[k] or "\n" in d[k]): return 3
        if "home" in d and not d["home"].startswith("/"): return 3
        if "uid" in d:
            if not d["uid"].isdigit(): return 3
            if "non-unique" not in d and any(v["uid"] == int(d["uid"]) and n != user for n, v in us.items()): return 4
        if "gid" in d and self.gname(d["gid"]) is None: return 6
        for g in filter(None, d.get("groups", "").split(",")):
            if self.gname(g) is None: return 6
        return 0
    def fresh(self, used, system):
        r = range(999, 100, -1) if system else range(61000, 62000)
        return next(i for i in r if i not in used)
    def t_useradd(self, a):
        d, user = self.uopts(a)
        def go():
            us, gs = self.s["users"], self.s["groups"]
            if user in us: return 9, b"", b"user exists"
            rc = self.check_attrs(d, user)
            if rc: return rc, b"", b"bad attribute"
            system = "system" in d
            uid = int(d["uid"]) if "uid" in d else self.fresh({v["uid"] for v in us.values()}, system)
            if "gid" in d and "user-group" in d: return 2, b"", b"options -U and -g conflict"
            if "gid" in d: grp = self.gname(d["gid"])
            elif "no-user-group" in d: grp = self.gname("100")
            else:
                if user in gs: return 9, b"", b"group exists"
                used = {v["gid"] for v in gs.values()}
                gs[user] = dict(gid=uid if uid not in used else self.fresh(used, system), system=system)
                grp = user
            if grp is None: return 6, b"", b"no default group"
            us[user] = dict(uid=uid, group=grp, groups=sorted({self.gname(g) for g in filter(None, d.get("groups", "").split(","))}), comment=d.get("comment", ""),
                            home=d.get("home", "/home/" + user), shell=d.get("shell", "/bin/sh"), hash=d.get("password", "!"), system=system, made_home="create-home" in d and "no-create-home" not in d)
            return 0, b"", b""
        return True, go
    def t_usermod(self, a):
        d, user = self.uopts(a)
        def go():
            us = self.s["users"]
            if user not in us: return 6, b"", b"no such user"
            rc = self.check_attrs(d, user)
            if rc: return rc, b"", b"bad attribute"
            u = us[user]
            if "append" in d and "groups" not in d: return 2, b"", b"-a needs -G"
            if "uid" in d: u["uid"] = int(d["uid"])
            if "gid" in d: u["group"] = self.gname(d["gid"])
            if "groups" in d:
                new = {self.gname(g) for g in filter(None, d["groups"].split(","))}
                u["groups"] = sorted(new | set(u["groups"])) if "append" in d else sorted(new)
            for k, f in (("comment", "comment"), ("home", "home"), ("shell", "shell"), ("password", "hash")):
                if k in d: u[f] = d[k]
            if "create-home" in d: u["made_home"] = True
            if "lock" in d: u["hash"] = "!" + u["hash"]
            return 0, b"", b""
        return True, go
    def t_userdel(self, a):
        o, rest = getopt.gnu_getopt(a, "fr", ["force", "remove"])
        if len(rest) != 1: raise ValueError("usage")
        user, remove = rest[0], any(k in ("-r", "--remove") for k, _ in o)
        def go():
            us, gs = self.s["users"], self.s["groups"]
            if user not in us: return 6, b"", b"no such user"
            u = us.pop(user)
            if remove: self.s["homes_removed"].append(user)
            if u["group"] == user and not any(v["group"] == user or user in v["groups"] for v in us.values()): gs.pop(user, None)
            return 0, b"", b""
        return True, go
    def gopts(self, a):
        o, rest = getopt.gnu_getopt(a, "rg:of", ["system", "gid=", "non-unique", "force"])
        short = {"-r": "system", "-g": "gid", "-o": "non-unique", "-f": "force"}
        d = {short.get(k, k.lstrip("-")): v for k, v in o}
        if len(rest) != 1: raise ValueError("usage")
        return d, rest[0]
    def t_groupadd(self, a):
        d, g = self.gopts(a)
        def go():
            gs = self.s["groups"]
            if g in gs: return (0 if "force" in d else 9), b"", b"group exists"
            used = {v["gid"] for v in gs.values()}
            if "gid" in d and (not d["gid"].isdigit() or int(d["gid"]) in used and "non-unique" not in d): return 4, b"", b"gid in use"
            gs[g] = dict(gid=int(d["gid"]) if "gid" in d else self.fresh(used, "system" in d), system="system" in d)
            return 0, b"", b""
        return True, go
    def t_groupmod(self, a):
        d, g = self.gopts(a)
        def go():
            gs = self.s["groups"]
            if g not in gs: return 6, b"", b"no such group"
            if "gid" in d:
                if not d["gid"].isdigit() or "non-unique" not in d and any(v["gid"] == int(d["gid"]) and n != g for n, v in gs.items()): return 4, b"", b"gid in use"
                gs[g]["gid"] = int(d["gid"])
            return 0, b"", b""
        return True, go
    def t_groupdel(self, a):
        d, g = self.gopts(a)
        def go():
            us, gs = self.s["users"], self.s["groups"]
            if g not in gs: return 6, b"", b"no such group"
            if any(v["group"] == g for v in us.values()): return 8, b"", b"primary group"
            gs.pop(g)
            for v in us.values(): v["groups"] = [x for x in v["groups"] if x != g]
            return 0, b"", b""
        return True, go
    def t_gpasswd(self, a):
        o, rest = getopt.gnu_getopt(a, "a:d:", ["add=", "delete="])
        (k, user), = o; g = self.gname(rest[0])
        def go():
            us = self.s["users"]
            if user not in us or g is None: return 3, b"", b"unknown user or group"
            s = set(us[user]["groups"])
            s = s | {g} if k in ("-a", "--add") else s - {g}
            us[user]["groups"] = sorted(s)
            return 0, b"", b""
        return True, go

    # --- packages ----------------------------------------------------------------------------
    def need(self, tool, r):
        """A manager that isn't installed on this host cannot be run."""
        return r if tool in self.s["commands"] else (False, lambda: (-127, b"", b"command not found"))
    def put(self, names, asked, world=False, upgrade=False):
        if upgrade: self.acts.append(["upgrade", "*"])
        for n in names:
            if n not in self.s["avail"]: return 100, b"", b"unable to locate package"
            if n in self.s["confirm"] and not asked: return 1, b"Do you want to continue? [Y/n] Abort.", b""
        for n in names:
            self.acts.append(["install", n])
            self.s["status"].pop(n, None)
            if n not in self.s["installed"]: self.s["installed"].append(n)
            if world and n not in self.s["world"]: self.s["world"].append(n)
        self.s["installed"].sort(); self.s["world"].sort()
        return 0, b"", b""
    def drop(self, names, asked, missing_ok):
        for n in names:
            if n not in self.s["installed"] and not missing_ok: return 1, b"", b"target not found"
        if names and any(n in self.s["installed"] for n in names) and not asked: return 1, b"Do you want to continue? [Y/n] Abort.", b""
        for n in names:
            self.acts.append(["remove", n])
            if n in self.s["installed"]: self.s["installed"].remove(n); self.s["status"].pop(n, None)
            if n in self.s["world"]: self.s["world"].remove(n)
        return 0, b"", b""
    def t_apt_get(self, a): return self.apt("apt-get", a)
    def t_apt(self, a): return self.apt("apt-get", a)
    def apt(self, tool, a):
        o, rest = getopt.gnu_getopt(a, "yqo:", ["yes", "assume-yes", "quiet", "no-install-recommends", "option=", "purge", "no-remove"])
        ks = [k for k, _ in o]
        self.note_opts(ks)
        asked = any(k in ("-y", "--yes", "--assume-yes") for k in ks)
        cmd, names = rest[0], rest[1:]
        if cmd in ("install",): return self.need(tool, (True, lambda: self.put(names, asked)))
        if cmd in ("remove", "purge"): return self.need(tool, (True, lambda: self.drop(names, asked, True)))
        if cmd in ("update", "check"): return self.need(tool, (False, lambda: (0, b"", b"")))
        raise ValueError("invalid operation")
    def t_dpkg_query(self, a):
        o, rest = getopt.gnu_getopt(a, "Wf:sl", ["show", "showformat=", "status", "list"])
        d = dict(o)
        fmt = d.get("-f", d.get("--showformat"))
        def go():
            out, bad = [], False
            for n in rest:
                st = self.s["status"].get(n, "install ok installed" if n in self.s["installed"] else None)
                if st is None: bad = True; continue
                if "-W" in d or "--show" in d:
                    f = fmt if fmt is not None else "${binary:Package}\t${Version}\n"
                    out.append(f.replace("${Status}", st).replace("${Package}", n).replace("${binary:Package}", n).replace("${Version}", "1.0").replace("${db:Status-Status}", st.split()[2]).replace("${db:Status-Abbrev}", "ii " if n in self.s["installed"] else "rc ").replace("\\n", "\n"))
                else: out.append(f"Package: {n}\nStatus: {st}\n")
            return (1 if bad else 0), "".join(out).encode(), b"dpkg-query: no packages found" if bad else b""
        return self.need("apt-get", (False, go))
    def t_dpkg(self, a):
        if a and a[0] in ("-s", "--status", "-l", "--list"): return self.t_dpkg_query(["-s"] + a[1:])
        raise ValueError("unsupported")
    def t_pacman(self, a):
        o, rest = getopt.gnu_getopt(a, "QlSRnsiyucqdkp", ["color=", "noconfirm", "query", "list", "sync", "remove", "nosave", "recursive", "info", "needed", "asdeps", "asexplicit", "quiet", "refresh"])
        ks = [k for k, _ in o]
        self.note_opts(ks)
        asked = "--noconfirm" in ks
        if "-Q" in ks or "--query" in ks:
            def go():
                if "-s" in ks:       # searches names and descriptions
                    hit = [n for n in self.s["installed"] if all(x in n for x in rest)]
                    return (0 if hit else 1), "".join(f"local/{n} 1.0-1\n" for n in hit).encode(), b""
                bad = [n for n in rest if n not in self.s["installed"]]
                return (1 if bad else 0), "".join(f"{n} /usr/bin/{n}\n" for n in rest if n not in bad).encode(), b"error: package was not found" if bad else b""
            return self.need("pacman", (False, go))
        if "-S" in ks or "--sync" in ks: return self.need("pacman", (True, lambda: self.put(rest, asked, upgrade="-u" in ks) if asked else (1, b":: Proceed with installation? [Y/n]", b"")))
        if "-R" in ks or "--remove" in ks: return self.need("pacman", (True, lambda: self.drop(rest, asked, False)))
        raise ValueError("no operation specified")
    def t_emerge(self, a):
        o, rest = getopt.gnu_getopt(a, "1vqCcaunND", ["info", "color=", "verbose", "oneshot", "depclean", "unmerge", "quiet", "ask", "noreplace", "update", "newuse", "deep", "quiet-build", "nospinner"])
        ks = [k for k, _ in o]
        self.note_opts(ks)
        if "--info" in ks:
            def go():
                out = b"Portage 3.0.30 (python 3.9)\n"
                for n in rest:
                    if n in self.s["installed"]: out += f"{n}-1.0::gentoo was built with the following:\nUSE=\"\"\n".encode()
                    elif n in self.s["avail"]: out += f"{n}-1.0::gentoo would be built with the following:\nUSE=\"\"\n".encode()
                    else: return 1, b"", b"emerge: there are no ebuilds to satisfy"
                return 0, out, b""
            return self.need("emerge", (False, go))
        asked = not ("-a" in ks or "--ask" in ks)
        if any(k in ("-C", "-c", "--unmerge", "--depclean") for k in ks): return self.need("emerge", (True, lambda: self.drop(rest, asked, True)))
        return self.need("emerge", (True, lambda: self.put(rest, asked, world=not ("-1" in ks or "--oneshot" in ks))))
    def note_opts(self, ks): self.opts.append(ks)
    # --- services ----------------------------------------------------------------------------
    def t_systemctl(self, a):
        o, rest = getopt.gnu_getopt(a, "p:q", ["user", "system", "value", "property=", "now", "quiet", "no-pager", "no-block", "global", "runtime", "force", "no-ask-password"])
        ks = [k for k, _ in o]
        scope = "user" if "--user" in ks else "system"
        for bad in ("--global", "--runtime"):
            if bad in ks: raise ValueError("unsupported")
        cmd, names = rest[0], rest[1:]
        units = self.s["units"][scope]
        U = lambda n: units.get(n if n in units else n + ".service" if n + ".service" in units else n)
        key = lambda n: n if n in units else n + ".service"
        if cmd == "show":
            props = [p for k, v in o if k in ("-p", "--property") for p in v.split(",")]
            def go():
                out = []
                for n in names:
                    u = U(n) or dict(active="inactive", enabled="")
                    vals = dict(ActiveState=u["active"], UnitFileState=u["enabled"], LoadState="masked" if u["enabled"] == "masked" else "loaded" if U(n) else "not-found", SubState={"active": "running", "inactive": "dead"}.get(u["active"], u["active"]), Id=n)
                    for p in props or vals: out.append(vals.get(p, "") if "--value" in ks else f"{p}={vals.get(p, '')}")
                return 0, "".join(x + "\n" for x in out).encode(), b""
            return self.need("systemctl", (False, go))
        if cmd == "is-active":
            return self.need("systemctl", (False, lambda: (0 if U(names[0]) and U(names[0])["active"] in ("active", "reloading") else 3, ((U(names[0]) or dict(active="inactive"))["active"] + "\n").encode(), b"")))
        if cmd == "is-enabled":
            return self.need("systemctl", (False, lambda: (0 if U(names[0]) and U(names[0])["enabled"] == "enabled" else 1, ((U(names[0]) or dict(enabled=""))["enabled"] + "\n").encode(), b"")))
        if cmd == "daemon-reload":
            def go():
                self.acts.append(["daemon-reload", scope, ""])
                return 0, b"", b""
            return self.need("systemctl", (True, go))
        if cmd not in ("start", "stop", "restart", "reload", "enable", "disable", "try-restart", "reload-or-restart"): raise ValueError("unknown verb")
        def go():
            if not names: return 1, b"", b"too few arguments"
            for n in names:
                u = U(n)
                if u is None: return 5 if cmd not in ("enable", "disable") else 1, b"", b"unit not found"
                todo = [cmd] + (["start"] if "--now" in ks and cmd == "enable" else ["stop"] if "--now" in ks and cmd == "disable" else [])
                for c in todo:
                    if u["enabled"] == "masked" and c in ("start", "restart", "enable", "reload-or-restart"): return 1, b"", b"unit is masked"
                    if c == "reload" and u["active"] not in ("active", "reloading"): return 1, b"", b"unit is not active"
                    if c == "try-restart" and u["active"] not in ("active", "reloading"): continue
                    if u.get("broken") and c in ("start", "restart"): u["active"] = "failed"; return 1, b"", b"job failed"
                    self.acts.append([c, scope, key(n)])
                    if c in ("start", "restart", "try-restart", "reload-or-restart"): u["active"] = "active"
                    if c == "reload": u["active"] = "active"
                    if c == "stop": u["active"] = "inactive"
                    if c == "enable": u["enabled"] = "enabled"
                    if c == "disable": u["enabled"] = "disabled"
            return 0, b"", b""
        return self.need("systemctl", (True, go))

class SimConnector(Connector):
    schema = "sim"
    sim: Sim = None
    def __init__(self, url, host): super().__init__(url, host)
    def open(self): pass
    def close(self): pass
    def run(self, command, input=None, capture_output=True, check=True, user=None, group=None, umask=None, cwd=None):
        rc, out, err = self.sim.call(command)
        if rc == -127: raise OSError(2, "No such file or directory", command[0])     # a missing executable
        if check and rc != 0: raise subprocess.CalledProcessError(rc, command, output=out, stderr=err)
        return CompletedRemoteCommand(stdout=out if capture_output else None, stderr=err if capture_output else None, returncode=rc)
    def resolve_user(self, user): 
        if user is None: return "root"
        return self.query_user(user).name
    def resolve_group(self, group):
        if group is None: return "root"
        return self.query_group(group).name
    def stat(self, path, follow_links=False, sha512sum=False):
        from fora.connectors.connector import StatResult
        return StatResult("dir", 0o755, "root", "root", 0, 0, 0, None) if path in ("/", "/tmp", "/root") else None
    def upload(self, *a, **k): raise OSError("not available on the simulated host")
    def download(self, file): raise OSError("not available on the simulated host")
    def query_user(self, user, query_password_hash=False):
        us = self.sim.s["users"]
        n = user if user in us else next((k for k, v in us.items() if user.isdigit() and v["uid"] == int(user)), None)
        if n is None: raise ValueError(f"The user does not exist")
        v = us[n]
        return UserEntry(name=n, uid=v["uid"], group=v["group"], gid=self.sim.s["groups"][v["group"]]["gid"], groups=[g for g in self.sim.s["groups"] if g in v["groups"]], password_hash=v["hash"] if query_password_hash else None, gecos=v["comment"], home=v["home"], shell=v["shell"])
    def query_group(self, group):
        n = self.sim.gname(group)
        if n is None: raise ValueError("The group does not exist")
        return GroupEntry(name=n, gid=self.sim.s["groups"][n]["gid"], members=[k for k, v in self.sim.s["users"].items() if n in v["groups"]])
    def getenv(self, key): return None
    @classmethod
    def extract_hostname(cls, url): return "sim"
