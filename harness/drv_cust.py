"""Loads inventories that replace default behaviour and reaches their hosts through recording connectors (C29)."""
import contextlib, inspect, io, os, sys, types
import vhost
rec = types.ModuleType("_crec")
sys.modules["_crec"] = rec
def text(u): return None if u["s"] == "~" else u["h"] if u["s"] == "" else f"ssh://{u['h']}" if u["s"] == "ssh" else f"{u['s']}:{u['h']}"
def parsed(t):
    if t is None: return dict(s="~", h="~")
    if ":" not in t: return dict(s="", h=t)
    s, h = t.split(":", 1)
    return dict(s=s, h=h[2:] if s == "ssh" and h.startswith("//") else h)
def hooks(scn):
    """name -> (parameters, table, what happens for other arguments)"""
    h, tab = {}, lambda t, k, v: {k(x["k"]): v(x["v"]) for x in t}
    err = lambda f: lambda v: "!" if v == "!" or (isinstance(v, dict) and v["s"] == "!") else f(v)
    ident = lambda x: x
    file = lambda v: None if v == "~" else v
    if scn["qualify"]["on"]: h["qualify_url"] = ("url", tab(scn["qualify"]["t"], text, err(text)), "x")
    if scn["extract"]["on"]: h["extract_hostname"] = ("url", tab(scn["extract"]["t"], text, err(ident)), "x.split(':', 1)[-1].lstrip('/')")
    if scn["gfile"]["on"]: h["group_module_file"] = ("name", tab(scn["gfile"]["t"], ident, file), "None")
    if scn["hfile"]["on"]: h["host_module_file"] = ("name", tab(scn["hfile"]["t"], ident, file), "None")
    return h
def write(path, s):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f: f.write(s)
def inventory(scn, d):
    inv = ["import os", "from fora.inventory_wrapper import HostDeclaration, GroupDeclaration", "from fora.remote_settings import RemoteSettings", "extra = 'own'", f"_here = {d!r}"]
    if scn["gdir"] != "groups": inv.append(f"groups_dir = {scn['gdir']!r}")
    if scn["hdir"] != "hosts": inv.append(f"hosts_dir = {scn['hdir']!r}")
    code = []
    for n, (arg, table, other) in hooks(scn).items():
        path = n.endswith("_file")
        code += [f"_t_{n} = {table!r}", f"def _v_{n}(x):", f"    r = _t_{n}[x] if x in _t_{n} else {other}", "    if r == '!': raise ValueError('not here')",
                 "    return r if r is None else os.path.join(_here, r)" if path else "    return r"]
        code += [f"def {n}({arg}): return _v_{n}({arg})" if scn["style"] != "lambda" else f"{n} = lambda {arg}: _v_{n}({arg})"]
    if scn["basehook"]: code.append(f"def base_dir(): return os.path.join(_here, {scn['base']!r})")
    if scn["settings"]["on"]:
        v = scn["settings"]["v"]
        code += ["_settings = RemoteSettings(as_user='nobody', as_group='nobody', owner='x', group='y', " + ", ".join(f"{k}={x!r}" for k, x in v.items()) + ")", "def base_remote_settings(): return _settings"]
    if scn["avail"] == "over": code.append("def available_groups(): return {'one', 'two'}")
    if scn["style"] == "import":
        write(f"{d}/custom_parts.py", "\n".join(["import os", "from fora.remote_settings import RemoteSettings", f"_here = {d!r}"] + code) + "\n")
        names = [l.split("(")[0][4:] for l in code if l.startswith("def ") and not l.startswith("def _")] + (["_settings"] if scn["settings"]["on"] else [])
        code = ["import importlib.util as _u", f"_spec = _u.spec_from_file_location('custom_parts', {d + '/custom_parts.py'!r})", "_m = _u.module_from_spec(_spec)", "_spec.loader.exec_module(_m)"] + [f"{n} = _m.{n}" for n in names]
    inv += code
    decl = lambda cls, form, kw: f"dict({kw})" if form == "dict" else f"{cls}({kw})"
    hs = []
    for h in scn["hosts"]:
        kw = [f"url={text(h['url'])!r}"] if h["url"]["s"] != "~" else []
        if h["name"] != "~": kw.append(f"name={h['name']!r}")
        if h["groups"]: kw.append(f"groups={h['groups']!r}")
        if h["file"] != "~": kw.append(f"file={h['file']!r}")
        hs.append(decl("HostDeclaration", h["form"], ", ".join(kw)))
    gs = []
    for i, g in enumerate(scn["groups"]):
        kw = [f"name={g['name']!r}"] + ([f"after=[{scn['groups'][i - 1]['name']!r}]"] if i else []) + ([f"file={g['file']!r}"] if g["file"] != "~" else [])
        gs.append(f"GroupDeclaration({', '.join(kw)})")
    inv += ["hosts = [" + ", ".join(hs) + "]", "groups = [" + ", ".join(gs) + "]"]
    write(f"{d}/inventory.py", "\n".join(inv) + "\n")
    sets = {x["k"]: x["v"] for x in scn["sets"]}
    for f in scn["files"]:
        m = f"import _crec\n_crec.record({f!r})\n"
        if f in sets:
            if sets[f]["url"]["s"] != "~": m += f"url = {text(sets[f]['url'])!r}\n"
            if sets[f]["connector"] != "~": m += f"connector = _crec.connectors[{sets[f]['connector']!r}]\n"
        write(f"{d}/{f}", m)
    write(f"{d}/deploy.py", "import _crec\n_crec.deploy()\n")

def run_case(scn, d):
    import fora, fora.loader, fora.connection
    from fora.connectors.connector import Connector, CompletedRemoteCommand, StatResult
    from fora.remote_settings import RemoteSettings
    vhost.setup_args()
    d = os.path.realpath(d)
    inventory(scn, d)
    mods, opened, seen = [], [], {}
    def record(f):
        mods.append([f, "h" if fora.host is not None else "g", fora.host.name if fora.host is not None else fora.group.name])
    class C(Connector):
        def open(self): opened.append(dict(kind=self.kind, url=parsed(self.url), host=self.host.name))
        def close(self): pass
        def run(self, command, input=None, capture_output=True, check=True, user=None, group=None, umask=None, cwd=None):
            seen["run"] = dict(user=user, group=group, umask=umask, cwd=cwd)
            return CompletedRemoteCommand(stdout=b"", stderr=b"", returncode=0)
        def resolve_user(self, user): return "u-" + self.kind if user is None else user
        def resolve_group(self, group): return "g-" + self.kind if group is None else group
        def stat(self, path, follow_links=False, sha512sum=False): return StatResult("dir", 0o755, "root", "root", 0, 0, 0, None)
        def upload(self, *a, **k): raise OSError("not here")
        def download(self, *a, **k): raise OSError("not here")
        def query_user(self, *a, **k): raise ValueError("not here")
        def query_group(self, *a, **k): raise ValueError("not here")
        def getenv(self, key): return None
        @classmethod
        def extract_hostname(cls, url): return parsed(url)["h"]
    def deploy():
        fora.host.connection.run(["true"])
        s = fora.host.connection.resolve_defaults(RemoteSettings())
        seen["settings"] = {k: getattr(s, k) for k in ("as_user", "as_group", "owner", "group", "file_mode", "dir_mode", "umask", "cwd")}
    saved = dict(Connector.registered_connectors)
    for s in scn["schemes"]: Connector.registered_connectors[s] = type("C" + s, (C,), dict(schema=s, kind=s))
    rec.record, rec.deploy, rec.connectors = record, deploy, Connector.registered_connectors
    fora.host = fora.script = fora.group = None
    cwd = os.getcwd()
    out = dict(outcome="ok", load="ok", mods=mods, hosts=[], groups=[], touched=False)
    sink = io.StringIO()
    try:
        with contextlib.redirect_stderr(sink), contextlib.redirect_stdout(sink):
            if scn["cwd"] == "rel": os.chdir(d)
            try: fora.loader.load_inventory("inventory.py" if scn["cwd"] == "rel" else f"{d}/inventory.py")
            except Exception as e: out.update(load=type(e).__name__, detail=str(e)[:200])
            finally: os.chdir(cwd)
            if out["load"] == "ok":
                out["groups"] = sorted(fora.inventory.available_groups())
                n = len(mods)
                for name, h in fora.inventory.loaded_hosts.items():
                    e = dict(name=name, own=h.name, url=parsed(h.url), leaked=[a for a in ("qualify_url", "extract_hostname", "group_module_file", "host_module_file", "base_dir", "base_remote_settings", "available_groups") if hasattr(h, a)],
                             extra=getattr(h, "extra", "~"), res="ok", opened=[], settings={}, run={})
                    opened.clear(); seen.clear()
                    try:
                        with fora.connection.open_connection(h):
                            fora.host = h
                            fora.loader.run_script(f"{d}/deploy.py", inspect.getouterframes(inspect.currentframe())[0])
                    except Exception as x: e.update(res=type(x).__name__, detail=str(x)[:200])
                    finally: fora.host = None
                    e.update(opened=list(opened), settings=seen.get("settings", {}), run=seen.get("run", {}))
                    out["hosts"].append(e)
                if len(mods) != n: out["outcome"] = "modules-loaded-late"
                if scn["settings"]["on"]:
                    g = fora.inventory.module._settings
                    out["touched"] = [g.as_user, g.as_group, g.owner, g.group] != ["nobody", "nobody", "x", "y"]
    finally:
        Connector.registered_connectors.clear(); Connector.registered_connectors.update(saved)
        fora.host = fora.group = fora.script = None
    return out
