"""Runs generated (nested) scripts that look up names on the host and in templates (C21)."""
import inspect, os, sys, types
import vhost

PY = {"int": lambda s: s, "str": repr, "NoneType": lambda s: "None", "bool": lambda s: s, "list": lambda s: s, "dict": lambda s: s,
      "type": lambda s: s.split("'")[1], "builtin_function_or_method": lambda s: s[:-1].split()[-1]}
def lit(v): return PY[v["t"]](v["s"])
def rec(v): return dict(t="module", s="") if isinstance(v, types.ModuleType) else dict(t=type(v).__name__, s=str(v))

def element(e):
    n = e["n"]
    return {"plain": "{{ %s }}" % n, "default": "{{ %s|default('D') }}" % n, "defined": "{%% if %s is defined %%}Y{%% else %%}N{%% endif %%}" % n,
            "host": "{{ host.%s }}" % n, "inventory": "{{ inventory.%s }}" % n}[e["form"]]

def emit(code):
    out = ["import vrec", "from fora.operations import local, files"]
    ind = 0
    def w(x): out.append("    " * ind + x)
    for n, i in enumerate(code):
        t = i["i"]
        if t == "set":
            if i["v"]["t"] == "module": w(f"import json as {i['n']}")
            else: w(f"{i['n']} = {lit(i['v'])}")
        elif t == "del": w(f"globals().pop({i['n']!r}, None)")
        elif t == "sethost": w(f"vrec.fora.host.{i['n']} = {lit(i['v'])}")
        elif t == "look": w(f"vrec.look({i['n']!r}, {i['how']!r})")
        elif t == "tmpl":
            ctx = "None" if not i["ctx"] and not i["emptyctx"] else "{" + ", ".join(f"{c['n']!r}: {lit(c['v'])}" for c in i["ctx"]) + "}"
            w(f"vrec.tmpl({chr(10).join(element(e) for e in i['es'])!r}, {ctx}, {i['via']!r}, {i['old']!r})")
        elif t == "try": w("try:"); ind += 1; w("pass")
        elif t == "endtry": ind -= 1; w("except Exception:"); w("    vrec.caught()")
        elif t == "raise": w("raise RuntimeError('x')")
        elif t == "call": w(f"local.script(vrec.path({i['s']}))")
    return "\n".join(out) + "\n"

def run_case(scn, d):
    import fora, fora.connection, fora.loader
    from fora.operations import files
    vhost.setup_args()
    d = os.path.realpath(d)
    os.makedirs(f"{d}/hosts"); os.mkdir(f"{d}/out")
    with open(f"{d}/inventory.py", "w") as f:
        for n, v in scn["inv"].items(): f.write(f"{n} = {lit(v)}\n")
        f.write("hosts = ['local:h1', 'local:h2']\n")
    for h, hv in scn["hosts"].items():
        if hv is None: continue
        with open(f"{d}/hosts/{h}.py", "w") as f:
            f.write("import json\n")
            for n, v in hv.items(): f.write(f"{n} = {lit(v)}\n")
    paths = []
    for k, code in enumerate(scn["prog"], 1):
        paths.append(f"{d}/s{k}.py")
        with open(paths[-1], "w") as f: f.write(emit(code))
    vrec = types.ModuleType("vrec")
    vrec.fora = fora
    events, cnt = [], [0]
    def look(n, how):
        if how == "get":
            try: v = rec(getattr(fora.host, n))
            except AttributeError: v = dict(t="undefined", s="")
        elif how == "default":
            o = object(); r = getattr(fora.host, n, o); v = dict(t="undefined", s="") if r is o else rec(r)
        else:
            v = rec(getattr(fora.host, n)) if hasattr(fora.host, n) else dict(t="undefined", s="")
        events.append(dict(ev="look", n=n, v=v))
    def tmpl(text, ctx, via, old):
        cnt[0] += 1
        p = f"{d}/out/o{cnt[0]}"
        if old:
            with open(p, "w") as f: f.write("OLD")
        before = sorted(os.listdir(f"{d}/out"))
        try:
            if via == "content": r = files.template_content(text, dest=p, context=ctx)
            else:
                src = f"{d}/t{cnt[0]}.j2"
                with open(src, "w") as f: f.write(text)
                r = files.template(src=src if via == "file" else os.path.basename(src), dest=p, context=ctx)
            ok, detail = bool(r.success), ""
        except Exception as e:
            ok, detail = False, f"{type(e).__name__}: {e}"[:200]
        got = None
        if os.path.exists(p):
            with open(p) as f: got = f.read()
        listing = sorted(os.listdir(f"{d}/out"))
        events.append(dict(ev="tmpl", ok=ok, texts=got.split("\n") if ok and got is not None else [], untouched=(got == "OLD") if old else got is None,
                           others=[x for x in listing if x != f"o{cnt[0]}"] == [x for x in before if x != f"o{cnt[0]}"], detail=detail))
    vrec.look, vrec.tmpl = look, tmpl
    vrec.caught = lambda: events.append(dict(ev="caught"))
    vrec.path = lambda k: paths[k - 1]
    sys.modules["vrec"] = vrec
    runs = []
    with vhost.quiet():
        fora.loader.load_inventory(f"{d}/inventory.py")
        for name, host in fora.inventory.loaded_hosts.items():
            fora.host, fora.script = host, None
            events = []
            with fora.connection.open_connection(host):
                try:
                    fora.loader.run_script(paths[0], inspect.getouterframes(inspect.currentframe())[0])
                    res, detail = "ok", ""
                except Exception as e: res, detail = "error", f"{type(e).__name__}: {e}"[:200]
            hv = scn["hosts"][name] or {}
            runs.append(dict(res=res, detail=detail, events=events,
                             env=dict(own=dict(name=dict(t="str", s=name), url=dict(t="str", s="local:" + name)), inv=scn["inv"], hv={**scn["inv"], **hv})))
    return dict(outcome="ok", events=[e for r in runs for e in r["events"]], runs=runs)
