"""Runs `fora --inspect-inventory` on generated inventories and parses what it prints (C25)."""
import contextlib, io, os, re, sys
import drv_inventory
ANSI = re.compile("\033\\[[0-9;]*m")

def parse(text):
    out = dict(groups=[], listed=[], globals={}, hosts=[])
    sec = None
    for l in ANSI.sub("", text).split("\n"):
        if re.match(r"─+ inventory ", l): sec = "inv"; continue
        m = re.match(r"─+ host (\S+) ─", l)
        if m: out["hosts"].append(dict(name=m[1], rows=[], leak=[])); sec = "host"; continue
        if sec != "host" and l.startswith("groups "): sec = "groups"; continue
        if sec != "host" and l.startswith("hosts "): sec = "hosts"; continue
        if sec != "host" and l == "variables": sec = "vars"; continue
        if sec == "groups":
            m = re.match(r"  - \((\d+)\) (.*)", l)
            if m: out["groups"].append(m[2])
        elif sec == "hosts":
            m = re.match(r"  - (\S+) \((.*), (.*)\)$", l)
            if m: out["listed"].append(dict(name=m[1], url=m[2]))
        elif sec == "vars":
            m = re.match(r"(\S+)\t\(type .*?\) = (.*)", l)
            if m: out["globals"][m[1]] = m[2]
        elif sec == "host" and " │ " in l:
            f = l.split(" │ ", 3)
            name = f[0].strip()
            if name == "variable": continue
            by = [dict(prec=int(p), name=n) for p, n in re.findall(r"\((\d+)\) ([^,]+?)(?:, |$)", f[2].strip())]
            out["hosts"][-1]["rows"].append(dict(name=name, type=f[1].strip(), by=by, value=f[3].rstrip()))
            if name.startswith("_") or name == "modx": out["hosts"][-1]["leak"].append(name)
    return out

class Console(io.StringIO):
    """standard output of the program, which is a terminal or not"""
    tty = False
    def isatty(self): return self.tty

def run_case(scn, d):
    import fora, fora.main
    drv_inventory.build(scn, d)
    fora.host = fora.script = fora.group = None
    fora.args = None
    os.environ["COLUMNS"] = str(scn["columns"])
    nc = scn["nocolor"]
    if nc == "env": os.environ["NO_COLOR"] = "1"
    else: os.environ.pop("NO_COLOR", None)
    os.chdir(os.path.join(d, "sub") if scn["cwd"] == "sub" and not os.mkdir(os.path.join(d, "sub")) else d)
    inv = dict(abs=os.path.join(d, "inventory.py"), rel="inventory.py", sub="../inventory.py")[scn["cwd"]]
    so, se = Console(), io.StringIO()
    so.tty = nc != "notty"
    rc, detail = 0, ""
    try:
        with contextlib.redirect_stderr(se), contextlib.redirect_stdout(so):
            fora.main.main(["--no-color"] * (nc == "before") + ["--inspect-inventory", inv] + ["--no-color"] * (nc == "after"))
    except SystemExit as e: rc = 0 if e.code in (None, 0) else 1
    except Exception as e: rc, detail = 1, f"{type(e).__name__}: {e}"[:300]
    t = parse(so.getvalue())
    keep = set(scn["vars"])
    for h in t["hosts"]: h["rows"] = [r for r in h["rows"] if r["name"] in keep]
    t["gleak"] = sorted(k for k in t["globals"] if k.startswith("_") or k == "modx")
    t["globals"] = {k: v for k, v in t["globals"].items() if k in keep} or {"?": ""}
    t.update(outcome="ok", rc=rc, detail=detail, ansi="\033" in so.getvalue())
    os.environ.pop("NO_COLOR", None)
    fora.host = fora.group = None
    return t
