"""Runs `fora --init LAYOUT` in a directory, and then the example deploy against simulated hosts (C27)."""
import contextlib, copy, io, os, shutil, sys
import simhost, vhost

def listing(w):
    res = []
    for d, ds, fs in os.walk(w):
        for n in sorted(ds + fs):
            p = os.path.join(d, n); k = os.path.relpath(p, w)
            if os.path.islink(p): res.append([k, "link"])
            elif os.path.isdir(p): res.append([k, "dir"])
            else:
                with open(p, "rb") as f: res.append([k, vhost.tok(f.read())])
    return sorted(res)

def cli(argv, w, answer=""):
    import fora, fora.main
    fora.host = fora.script = fora.args = None
    hook, cwd, stdin, rc, detail = sys.excepthook, os.getcwd(), sys.stdin, 0, ""
    os.chdir(w)
    try:
        with vhost.quiet():
            sys.stdin = io.StringIO("" if answer == "EOF" else answer + "\n")
            try: fora.main.main(argv)
            except SystemExit as e: rc = 0 if e.code in (None, 0) else 1
            except BaseException as e: rc, detail = 1, f"{type(e).__name__}: {e}"[:300]
    finally:
        sys.stdin, sys.excepthook = stdin, hook
        fora.host = None
        os.chdir(cwd)
    return rc, detail

_fresh = {}
def run_case(scn, d):
    from fora.connectors.connector import Connector, StatResult
    d = os.path.realpath(d)
    w = d + "/w"; os.mkdir(w)
    l = scn["layout"]
    if l not in _fresh:     # what the layout's files contain
        os.mkdir(d + "/fresh"); cli(["--init", l], d + "/fresh"); _fresh[l] = listing(d + "/fresh")
    for e in scn["pre"]:
        p = f"{w}/{e['path']}"
        if e["kind"] == "dir": os.mkdir(p)
        elif e["kind"] == "link": os.symlink("nowhere", p)
        else:
            with open(p, "w") as f: f.write(e["data"])
    before = listing(w)
    rc, detail = cli(["--init", l], w, scn["answer"])
    tr = dict(outcome="ok", rc=rc, detail=detail, before=before, after=listing(w), fresh=_fresh[l], run="~")
    if rc != 0 or l not in ("minimal", "flat", "dotfiles", "modular", "staging_prod"): return tr
    # the files a user adds to the layout, and nothing else of theirs
    for e in sorted(scn["pre"], key=lambda e: e["path"], reverse=True):
        if e["path"] not in {x[0] for x in _fresh[l]}:
            p = f"{w}/{e['path']}"
            if e["kind"] == "dir": os.rmdir(p)
            else: os.unlink(p)
    if l == "dotfiles":
        for x in ("zsh/zshrc", "kitty/kitty.conf", "neovim/init.lua"):
            os.makedirs(os.path.dirname(f"{w}/{x}"), exist_ok=True)
            with open(f"{w}/{x}", "w") as f: f.write("own:" + x)
    hosts = []
    class Sim(simhost.Sim):
        def ok(self, a): return True, lambda: (0, b"", b"")
        t_chown = t_chmod = t_touch = ok
        def t_mkdir(self, a):
            def go():
                p = a[-1]
                if p in self.fs or (os.path.dirname(p) not in self.fs and "-p" not in a): return 1, b"", b"cannot create directory"
                self.fs[p] = None
                return 0, b"", b""
            return True, go
    class C(simhost.SimConnector):
        def open(self):
            g = lambda k: str(getattr(self.host, k, "~"))
            self.sim = Sim(copy.deepcopy(dict(commands=["apt-get", "dpkg-query", "dpkg", "systemctl"], users=dict(root=dict(uid=0, group="root", groups=[], comment="", home="/root", shell="/bin/sh", hash="*", system=True, made_home=False)), groups=dict(root=dict(gid=0, system=True)), homes_removed=[],
                                              installed=[], world=[], avail=["nginx"], confirm=["nginx"], status={}, units=dict(system={"nginx.service": dict(active="inactive", enabled="disabled")}, user={}))), d)
            self.sim.fs = {p: None for p in ("/", "/tmp", "/root", "/root/.config", "/etc", "/etc/nginx", "/etc/nginx/sites")}
            self.sim.uploads = 0
            hosts.append((dict(name=self.host.name, url=str(self.host.url), some=g("somevariable"), domain=g("domain")), self.sim))
        def stat(self, path, follow_links=False, sha512sum=False):
            import hashlib
            if path not in self.sim.fs: return None
            b = self.sim.fs[path]
            return StatResult("dir" if b is None else "file", 0o755 if b is None else 0o600, "root", "root", 0 if b is None else len(b), 0, 0, hashlib.sha512(b).digest() if b is not None and sha512sum else None)
        def upload(self, file, content, *a, **k):
            if os.path.dirname(file) not in self.sim.fs: raise OSError(2, "No such file or directory")
            self.sim.uploads += 1; self.sim.fs[file] = content
        def download(self, file):
            b = self.sim.fs.get(file)
            if b is None: raise ValueError("not a file")
            return b
    saved = dict(Connector.registered_connectors)
    try:
        for s in ("local", "ssh"):
            old = saved[s]
            Connector.registered_connectors[s] = type("C" + s, (C,), dict(schema=s, extract_hostname=old.extract_hostname))
        rc, detail = cli((["--dry"] if scn["dry"] else []) + [scn["inv"], "deploy.py"], w)
    finally:
        Connector.registered_connectors.clear(); Connector.registered_connectors.update(saved)
    MARKS = ["this was defined by the host", "static content", "This file is managed by fora.", "this is a fallback value defined in a script", "sites/site1", "sites/site2", "own:zsh/zshrc", "own:kitty/kitty.conf", "own:neovim/init.lua"]
    out = []
    for h, sim in hosts:
        u = sim.s["units"]["system"]["nginx.service"]
        out.append(dict(host=h, has=[[p, m] for p, b in sorted(sim.fs.items()) if b is not None for m in MARKS if m.encode() in b], uploads=sim.uploads, installed=sorted(sim.s["installed"]), unit=[u["active"], u["enabled"]]))
    tr["run"] = dict(rc=rc, detail=detail, hosts=out)
    return tr
