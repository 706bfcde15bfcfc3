"""Generates real scripts from an abstract program, runs them and records what they find (C10, C11)."""
import os, subprocess, sys, types
import vhost

SETTINGS = ["as_user", "as_group", "owner", "group", "file_mode", "dir_mode", "umask", "cwd"]

class Boom(Exception): pass

def emit(prog, k, d):
    """Python source of script k."""
    s = prog[k - 1]
    out = ["import os", "import vrec", "import fora", "from fora.operations import local, files", ""]
    if s["params"]:
        out += ["@Params", "class params:"]
        for p, v in s["params"].items(): out.append(f"    {p}: str" + ("" if v == "~" else f" = {v!r}"))
    else:
        out += ["class params: pass"]
    names = list(s["params"])
    ind = 0
    def w(x): out.append("    " * ind + x)
    for i in s["code"]:
        t = i["i"]
        if t == "obs": w(f"vrec.obs(params, {names!r})")
        elif t == "block":
            kw = ", ".join(f"{a}={v.replace('@D', d)!r}" for a, v in i["d"].items() if v != "~")
            w(f"with defaults({kw}):"); ind += 1; w("pass")
        elif t == "end": ind -= 1
        elif t == "try": w("try:"); ind += 1; w("pass")
        elif t == "endtry":
            ind -= 1; w("except BaseException as e:"); w("    vrec.caught(e)")
        elif t == "raise":
            w({"boom": "raise vrec.Boom()", "exit": "raise SystemExit(3)", "interrupt": "raise KeyboardInterrupt()", "error": "raise RuntimeError('x')"}[i["kind"]])
        elif t == "chdir": w(f"os.chdir({i['to'].replace('@D', d)!r})")
        elif t == "setparam":
            if i["p"] in names: w(f"params.{i['p']} = {i['v']!r}")
        elif t == "call":
            kw = [f"params={i['args']!r}"] if i["args"] else []
            if i["rec"]: kw.append("recursive=True")
            if i["name"] != "~": kw.append(f"name={i['name']!r}")
            kw = ", ".join(kw)
            w(f"if vrec.may_call(): local.script(vrec.path({i['s']}, {i.get('rel', False)!r}), {kw})")
        elif t == "op":
            kw = ", ".join(f"{a}={i[b]!r}" for a, b in (("mode", "mode"), ("owner", "owner"), ("group", "group")) if i[b] != "~")
            w(f"vrec.op(lambda p: files.file(p, {kw}))")
    w("pass")
    return "\n".join(out) + "\n"

def kind_of(e):
    return "boom" if isinstance(e, Boom) else "exit" if isinstance(e, SystemExit) else "interrupt" if isinstance(e, KeyboardInterrupt) else "error"

def run_case(scn, d):
    import fora, fora.connection, fora.loader
    vhost.setup_args()
    d = os.path.realpath(d)
    prog = scn["prog"]
    for x in ("start", "elsewhere", "remote", "ops"): os.mkdir(os.path.join(d, x)); os.chmod(os.path.join(d, x), 0o755)
    files = []
    for k, s in enumerate(prog, 1):
        sd = s["dir"].replace("@D", d)
        os.makedirs(sd, exist_ok=True)
        f = os.path.join(sd, s["name"] + ".py")
        with open(f, "w") as fh: fh.write(emit(prog, k, d))
        files.append(f)
    os.mkdir(os.path.join(d, "links"))
    for k, f in enumerate(files): os.symlink(f, os.path.join(d, "links", os.path.basename(f)))
    if scn.get("link"):   # the root script is reached through a symbolic link
        os.symlink(files[0], os.path.join(d, "start", "link.py"))
    rel = lambda p: "@D" + p[len(d):] if p == d or p.startswith(d + "/") else p
    events = []
    state = dict(calls=0, ops=0)
    vrec = types.ModuleType("vrec")
    def depth():
        n, f = 0, sys._getframe()
        while f is not None:
            if f.f_code.co_name == "<module>" and f.f_code.co_filename.startswith(d + "/"): n += 1
            f = f.f_back
        return n
    def obs(params, names):
        cd = fora.script.current_defaults()
        p = fora.host.connection.run(["sh", "-c", "id -u; id -g; umask; pwd -P"])
        o = p.stdout.decode().split("\n")
        events.append(dict(ev="obs", cwd=rel(os.getcwd()), script=fora.script.name, params=[[n, getattr(params, n)] for n in names],
                           dfl={k: (lambda v: oct(int(v, 8))[2:] if k.endswith(("mode", "umask")) else rel(v))(str(getattr(cd, k))) for k in SETTINGS},
                           run=dict(uid=int(o[0]), gid=int(o[1]), umask=oct(int(o[2], 8))[2:], cwd=rel(o[3]))))
    def may_call():
        if depth() >= 4 or state["calls"] >= 10: return False
        state["calls"] += 1
        return True
    def op(fn):
        state["ops"] += 1
        p = os.path.join(d, "ops", f"o{state['ops']}")
        fn(p)
        s = vhost.lstat(p)
        events.append(dict(ev="op", mode=s["mode"], owner=s["owner"], group=s["group"]))
    vrec.obs, vrec.may_call, vrec.op, vrec.Boom = obs, may_call, op, Boom
    vrec.caught = lambda e: events.append(dict(ev="caught", kind=kind_of(e), detail=str(e)[:150]))
    vrec.path = lambda k, r: os.path.join(d, "links", os.path.basename(files[k - 1])) if r == "link" else os.path.relpath(files[k - 1]) if r else files[k - 1]
    sys.modules["vrec"] = vrec
    os.chdir(os.path.join(d, "start"))
    host = vhost.new_host()
    fora.script = None
    base = dict(as_user="root", as_group="root", owner="root", group="root", file_mode="600", dir_mode="700", umask="77", cwd=rel(os.path.realpath("/tmp")))
    env = dict(vhost.small_accounts(), rdirs=["@D/remote", "/", "@D/elsewhere"], cwd0="@D/start", base=base)
    import inspect
    detail = ""
    with vhost.quiet():
        try:
            with fora.connection.open_connection(host):
                try:
                    fora.loader.run_script(os.path.join(d, "start", "link.py") if scn.get("link") else files[0], inspect.getouterframes(inspect.currentframe())[0], name="cmdline")
                    result = "ok"
                except BaseException as e:
                    result = kind_of(e); detail = f"{type(e).__name__}: {e}"[:300]
                after = dict(cwd=rel(os.getcwd()), script="~none" if fora.script is None else fora.script.name)
        finally:
            os.chdir("/")
    return dict(outcome="ok", result=result, detail=detail, events=events, after=after, env=env)
