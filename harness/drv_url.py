"""Declares hosts by url, loads them and connects with a recording ssh client (C24)."""
import json, os, sys
import vhost

FAKE = '''#!/opt/venv/bin/python -SE
import json, os, sys
a = sys.argv[1:]
ARG = set("BbcDEeFIiJLlmOoPpRSWw")
opts, user, port, i = [], None, None, 0
while i < len(a):
    x = a[i]
    if x == "--": i += 1; break
    if not x.startswith("-") or x == "-": break
    j = 1
    while j < len(x):
        ch = x[j]
        if ch in ARG:
            v = x[j+1:]
            if v == "": i += 1; v = a[i]
            if ch == "l": user = user or v
            elif ch == "p": port = port or v
            elif ch == "o" and v.lower().startswith("user="): user = user or v[5:]
            elif ch == "o" and v.lower().startswith("port="): port = port or v[5:]
            else: opts.append([ch, v])
            break
        opts.append([ch, ""])
        j += 1
    i += 1
t, cmd = a[i], a[i+1:]
h = t
if t.startswith("ssh://"):
    h = t[6:]
    if "@" in h: u, h = h.split("@", 1); user = user or u
    if h.startswith("["):
        host, _, p = h[1:].partition("]"); p = p[1:]
    else: host, _, p = h.partition(":")
    port = port or p
else:
    if "@" in h: u, h = h.rsplit("@", 1); user = user or u
    host = h
with open(os.environ["VSSH_LOG"], "a") as f: f.write(json.dumps(dict(user=user or "", host=host, port=port or "", opts=opts)) + "\\n")
os.execv("/bin/sh", ["sh", "-c", " ".join(cmd)])
'''

def chars(s): return "~" if s is None else list(s)

def run_case(scn, d):
    import fora, fora.loader, fora.connection, fora.types
    from fora.connectors.connector import Connector, connector
    from fora.connectors.local import LocalConnector
    vhost.setup_args(debug=scn["debug"])
    d = os.path.realpath(d)
    os.makedirs(f"{d}/bin"); os.makedirs(f"{d}/hosts")
    with open(f"{d}/bin/ssh", "w") as f: f.write(FAKE)
    os.chmod(f"{d}/bin/ssh", 0o755)
    log = f"{d}/ssh.log"
    os.environ["VSSH_LOG"] = log
    oldpath = os.environ["PATH"]
    os.environ["PATH"] = f"{d}/bin:" + oldpath
    created = []
    @connector(schema="vt")
    class VtConnector(LocalConnector):
        def __init__(self, url, host):
            created.append(url)
            super().__init__(url, host)
        @classmethod
        def extract_hostname(cls, url): return url[3:]
    sys.modules["vtconn"] = type(sys)("vtconn")
    sys.modules["vtconn"].VtConnector = VtConnector
    try:
        if scn["inv"] == "url": inv = scn["hosts"][0]["url"]
        else:
            inv = f"{d}/inventory.py"
            items = []
            for i, h in enumerate(scn["hosts"]):
                if h["decl"] == "str": items.append(repr(h["url"])); continue
                kw = {}
                if h["url"] is not None: kw["url"] = h["url"]
                if h["name"] is not None: kw["name"] = h["name"]
                if h["mod"]:
                    kw["file"] = f"hosts/m{i}.py"
                    with open(f"{d}/hosts/m{i}.py", "w") as f:
                        for k, v in h["mod"].items():
                            if k == "connector":
                                m = dict(ssh=("fora.connectors.ssh", "SshConnector"), local=("fora.connectors.local", "LocalConnector"), vt=("vtconn", "VtConnector"))[v]
                                f.write(f"from {m[0]} import {m[1]}\nconnector = {m[1]}\n")
                            elif k == "opts": f.write(f"ssh_opts = {v!r}\n")
                            else: f.write(f"{k} = {v!r}\n")
                items.append(("HostDeclaration(" if h["decl"] == "obj" else "dict(") + ", ".join(f"{k}={v!r}" for k, v in kw.items()) + ")")
            with open(inv, "w") as f: f.write("from fora.inventory_wrapper import HostDeclaration\nhosts = [" + ", ".join(items) + "]\n")
        events = []
        def drain():
            res = []
            if os.path.exists(log):
                with open(log) as f:
                    for l in f:
                        x = json.loads(l)
                        res.append(dict(user=chars(x["user"]), host=chars(x["host"]), port=chars(x["port"]), opts=x["opts"]))
                os.unlink(log)
            return res
        with vhost.quiet():
            try:
                fora.loader.load_inventory(inv)
                load = "ok"
            except Exception as e:
                load = "error"
            ls = drain()
            if load == "ok":
                for name, host in fora.inventory.loaded_hosts.items():
                    fora.host = host
                    fora.script = fora.types.ScriptWrapper("harness")
                    created.clear()
                    ev = dict(name=chars(name), same=name == host.name, out="~")
                    try:
                        with fora.connection.open_connection(host) as conn:
                            ev["res"] = "ok"
                            try: ev["out"] = conn.run(["printf", "%s", "a b"]).stdout.decode()
                            except Exception as e: ev["out"] = "error"
                    except Exception as e:
                        ev["res"] = "error"; ev["detail"] = f"{type(e).__name__}: {e}"[:200]
                    ev["ssh"] = drain()
                    ev["vt"] = [chars(u) for u in created]
                    events.append(ev)
        return dict(outcome="ok", load=load, lssh=ls, events=events)
    finally:
        os.environ["PATH"] = oldpath
        Connector.registered_connectors.pop("vt", None)
