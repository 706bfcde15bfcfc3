"""Loads generated inventories with the real loader and records what user modules observe."""
import contextlib, io, os, sys, types

rec = types.ModuleType("_vrec")
rec.events = []
rec.vars = []
sys.modules["_vrec"] = rec

def tags(val):
    if val is None: return ["None"]
    if isinstance(val, str): return [val]
    if isinstance(val, dict): return list(val)
    return list(val)

def snapshot(d):
    return {v: (tags(d[v]) if v in d else ["~"]) for v in rec.vars}

def record(kind, name, g):
    leak = [n for n in ("_priv", "modx", "module", "_", "__custom__") if n in g]
    rec.events.append(dict(k=kind, name=name, seen=snapshot(g), leak=leak))
rec.record = record

def literal(var, tag):
    return {"v": f"[{tag!r}]", "w": f"{{{tag!r}: 1}}", "s": f"{tag!r}"}[var[0]]

def action_code(var, act, tag):
    if act == "none": return ""
    if act == "assign": return f"{var} = {literal(var, tag)}\n"
    if act == "assigneq": return f"{var} = {literal(var, 'eq')}\n"
    if act == "assignnone": return f"{var} = None\n"
    if act == "append":
        mod = {"v": f"{var}.append({tag!r})", "w": f"{var}[{tag!r}] = 1"}[var[0]]
        return (f"if globals().get({var!r}) is not None:\n    {mod}\nelse:\n    {var} = {literal(var, tag)}\n")
    raise ValueError(act)

def module_code(scn, kind, name):
    key = f"{kind}:{name}"
    code = f"import _vrec\n_vrec.record({kind!r}, {name!r}, globals())\nimport math as modx\n_priv = {name!r}\n_ = 1\n__custom__ = 2\n"
    for v in scn["vars"]:
        code += action_code(v, scn["act"].get(key, {}).get(v, "none"), key)
    return code

def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)

def build(scn, d):
    """writes the inventory and its modules"""
    rec.events = []
    rec.vars = scn["vars"]
    gdir, hdir = scn.get("groups_dir", "groups"), scn.get("hosts_dir", "hosts")
    inv = "import _vrec\nimport math as modx\n_priv = 1\nfrom fora.inventory_wrapper import HostDeclaration, GroupDeclaration\n"
    if gdir != "groups": inv += f"groups_dir = {gdir!r}\n"
    if hdir != "hosts": inv += f"hosts_dir = {hdir!r}\n"
    for v in scn["vars"]:
        inv += action_code(v, scn["act"].get("inv", {}).get(v, "none"), "inv")
    hosts = []
    if scn["shared"]:
        inv += "_shared = {" + ", ".join(f"{v!r}: {literal(v, 'd:shared')}" for v in scn["vars"]) + "}\n"
    for h in scn["hosts"]:
        fields = {}
        if h.get("named", True): fields["name"] = repr(h["name"])
        if h.get("url"): fields["url"] = repr(h["url"])
        if h["groups"] or h.get("emptygroups"): fields["groups"] = repr(h["groups"])
        if h["file"] in ("explicit", "missing"): fields["file"] = repr(f"custom/h_{h['name']}.py")
        dv = {v: f"_shared[{v!r}]" if scn["shared"] else literal(v, "d:" + h["name"]) for v in scn["vars"] if scn["act"].get("d:" + h["name"], {}).get(v) == "assign"}
        if dv: fields["vars"] = "{" + ", ".join(f"{k!r}: {x}" for k, x in dv.items()) + "}"
        form = h.get("form", "obj")
        if form == "str": hosts.append(repr(h["url"]))
        elif form == "dict": hosts.append("dict(" + ", ".join(f"{k}={x}" for k, x in fields.items()) + ")")
        else: hosts.append("HostDeclaration(" + ", ".join(f"{k}={x}" for k, x in fields.items()) + ")")
        if h["file"] in ("default", "explicit"):
            write(os.path.join(d, hdir, h["name"] + ".py") if h["file"] == "default" else os.path.join(d, f"custom/h_{h['name']}.py"), module_code(scn, "h", h["name"]))
    groups = []
    for g in scn["groups"]:
        fields = dict(name=repr(g["name"]))
        if g["after"]: fields["after"] = repr(g["after"])
        if g["before"]: fields["before"] = repr(g["before"])
        if g["file"] in ("explicit", "missing"): fields["file"] = repr(f"custom/g_{g['name']}.py")
        form = g.get("form", "obj")
        if form == "str": groups.append(repr(g["name"]))
        elif form == "dict": groups.append("dict(" + ", ".join(f"{k}={x}" for k, x in fields.items()) + ")")
        else: groups.append("GroupDeclaration(" + ", ".join(f"{k}={x}" for k, x in fields.items()) + ")")
        if g["file"] in ("default", "explicit"):
            write(os.path.join(d, gdir, g["name"] + ".py") if g["file"] == "default" else os.path.join(d, f"custom/g_{g['name']}.py"), module_code(scn, "g", g["name"]))
    bad = scn["bad"]
    if bad == "host-wrong-type": hosts.append("5")
    if bad == "host-without-name": hosts.append("HostDeclaration()")
    if bad == "host-unknown-field": hosts.append("dict(name='hx', bogus=1)")
    if bad == "host-unknown-schema": hosts.append("'bogus://hx'")
    if bad == "group-wrong-type": groups.append("5")
    if bad == "group-without-name": groups.append("dict(after=[])")
    if bad == "hosts-not-a-list": inv += "hosts = {'a': 1}\n"
    elif bad != "hosts-undefined": inv += "hosts = [" + ", ".join(hosts) + "]\n"
    if not scn["auto"]: inv += "groups = [" + ", ".join(groups) + "]\n"
    write(os.path.join(d, "inventory.py"), inv)

def run_case(scn, d):
    import fora, fora.loader
    from fora.utils import FatalError
    build(scn, d)
    fora.host = fora.script = fora.group = None
    out = dict(outcome="ok", hosts=[], detail="")
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
            fora.loader.load_inventory(scn["immediate"] if scn.get("immediate") else os.path.join(d, "inventory.py"))
        for name, h in fora.inventory.loaded_hosts.items():
            undefined = object()
            vals = {v: getattr(h, v, undefined) for v in scn["vars"]}
            out["hosts"].append(dict(name=name, groups=sorted(h.groups), vars={v: (["~"] if x is undefined else tags(x)) for v, x in vals.items()}))
    except (FatalError, ValueError) as e:
        out.update(outcome="rejected", detail=str(e)[:300])
    except Exception as e:
        out.update(outcome="exc:" + type(e).__name__, detail=str(e)[:300])
    out["events"] = rec.events
    fora.host = fora.group = None
    return out
