"""Runs nested scripts that fail through the command line program and records what is printed about it (C28)."""
import contextlib, io, os, re, subprocess, sys, types
import vhost, simhost

HEAD = ["import fora, os, sys", "from verif_ops import probe", "from fora.operations import local", "class Custom(Exception): pass"]
def helper():
    """The module with the operation that the scripts use."""
    if "verif_ops" in sys.modules: return
    from fora.operations.api import Operation, OperationError, operation
    m = types.ModuleType("verif_ops")
    def probe(kind, m, code=1, name=None, check=True, op=Operation.internal_use_only):
        import fora
        op.desc(m)
        if kind == "opraise": raise OperationError(f"[{m}]")
        if kind == "opexc": raise LookupError(f"[{m}]")
        if kind == "opproc": fora.host.connection.run(["fail", m, str(code)])
        op.initial_state(v=1); op.final_state(v=2)
        if kind == "opfail": return op.failure(f"[{m}]")
        return op.success()
    m.probe = operation("probe")(probe)
    sys.modules["verif_ops"] = m

def render(scn, i):
    s = scn["scripts"][i]
    out = list(HEAD)
    for st in s["stmts"]:
        k, m = st["k"], st["m"]
        if k == "call":
            x = f"local.script(script={st['rel']!r}" + (f", name={st['name']!r})" if st["name"] != "~" else ")")
        elif k == "missing": x = f"local.script(script='no-{m}.py')"
        elif k == "value": x = f"raise ValueError('[{m}]')"
        elif k == "assert": x = f"assert False, '[{m}]'"
        elif k == "custom": x = f"raise Custom('[{m}]')"
        elif k == "undef": x = f"fora.host.undef_{m}"
        elif k == "proc": x = f"fora.host.connection.run(['fail', '{m}', '{st['code']}'])"
        elif k == "exit": x = "sys.exit(3)"
        elif k == "kbd": x = "raise KeyboardInterrupt()"
        elif k == "ok": x = f"probe('ok', '{m}')"
        else: x = f"probe('{k}', '{m}', code={st['code']}, check={st['check']})"
        ind = "    " if st["fn"] else ""
        if st["fn"]: out.append(f"def {st['func']}():")
        if st["h"] == "none": out.append(ind + x)
        else:
            out += [f"{ind}try:", f"{ind}    {x}", f"{ind}except Exception as e:"]
            out.append(f"{ind}    " + dict(swallow="pass", reraise="raise", wrap=f"raise RuntimeError('[w{m}]') from e", replace=f"raise RuntimeError('[w{m}]')")[st["h"]])
        if st["fn"]: out.append(f"{st['func']}()")
        out.append("")
    if s["broken"]: out.append("def broken(:")
    return "\n".join(out) + "\n"

def run_case(scn, d):
    from fora.connectors.connector import Connector, CompletedRemoteCommand
    import fora, fora.main
    helper()
    d = os.path.realpath(d); w = d + "/w"
    os.makedirs(w + "/t/u")
    for i, s in enumerate(scn["scripts"]):
        with open(f"{w}/{s['path']}", "w") as f: f.write(render(scn, i))
    class C(simhost.SimConnector):
        def open(self): self.sim = simhost.Sim(dict(commands=[], users=dict(root=dict(uid=0, group="root", groups=[], comment="", home="/root", shell="/bin/sh", hash="*", system=True, made_home=False)), groups=dict(root=dict(gid=0, system=True))), d)
        def run(self, command, input=None, capture_output=True, check=True, **kw):
            if command[0] != "fail": return super().run(command, input, capture_output, check)
            out, err = f"out-{command[1]}".encode() + b"\xff", f"err-{command[1]}\n".encode()
            if check: raise subprocess.CalledProcessError(int(command[2]), command, output=out, stderr=err)
            return CompletedRemoteCommand(stdout=out, stderr=err, returncode=int(command[2]))
    saved = dict(Connector.registered_connectors)
    Connector.registered_connectors["local"] = type("Clocal", (C,), dict(schema="local", extract_hostname=saved["local"].extract_hostname))
    out, err = io.StringIO(), io.StringIO()
    hook, cwd, rc, end = sys.excepthook, os.getcwd(), 0, "~"
    fora.host = fora.script = fora.args = None
    os.chdir(w)
    sys.excepthook = sys.__excepthook__
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try: fora.main.main((["--debug"] if scn["debug"] else []) + (["--dry"] if scn["dry"] else []) + ["local:h", "deploy.py"])
            except SystemExit as e: rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1; end = "exit"
            except BaseException: rc = 1; sys.excepthook(*sys.exc_info())     # what the interpreter does
    finally:
        sys.excepthook = hook
        fora.host = fora.script = None
        Connector.registered_connectors.clear(); Connector.registered_connectors.update(saved)
        left = os.path.realpath(os.getcwd()) != w
        os.chdir(cwd)
    rel = lambda p: os.path.relpath(p, w) if p.startswith(w + "/") else "~"
    E = err.getvalue().split("\n")
    entry = lambda l: re.fullmatch(r'  File "(.*)", line (\d+)(?:, in (.*))?', l)
    stack, tb, procs, final, mode = [], [], [], "", None
    stacks = 0
    for l in E:
        if l.startswith("Script stack (most recent call last):"): mode, stack = "stack", []; stacks += 1; continue
        if l.startswith("Traceback (most recent call last):"): mode, tb = "tb", []; continue
        h = re.fullmatch(r"─* *command (.*) failed with code (-?\d+) \]─*", l)
        if h: procs.append(dict(cmd=h[1], code=h[2], out="", err="")); mode = "cmd"; continue
        if procs and mode in ("cmd", "out", "err"):
            if re.fullmatch(r"─* *stdout \(special characters escaped\) ─*", l): mode = "out"; continue
            if re.fullmatch(r"─* *stderr \(special characters escaped\) ─*", l): mode = "err"; continue
            if re.fullmatch(r"─* *end ─*", l): mode = None; continue
            if mode in ("out", "err"): procs[-1][mode] += l + "\n"
            continue
        m = entry(l)
        if m and mode in ("stack", "tb"): (stack if mode == "stack" else tb).append([rel(m[1]), int(m[2]), m[3] or ""])
        elif mode == "tb" and l and not l.startswith(" "): final = l; mode = "after"
    lines = []
    for l in (l.rsplit("\r", 1)[-1] for l in out.getvalue().split("\n")):
        m = re.match(r"( *)(script|probe)(?: \(dry\))? (\S+)(?: \((.*)\))?", l)
        if m and not l.endswith("(early status)"): lines.append([len(m[1]), m[2], m[3], m[4] or "~"])
    base = lines[0][0] if lines else 0     # other runs of this process may have left their indentation
    for l in lines: l[0] -= base
    def token(s):
        m = re.findall(r"\[(w?m\d+)\]|'fail', '(m\d+)'|undef_(m\d+)|no-(m\d+)\.py", s)
        return next(x for x in m[0] if x) if m else "~"
    ok = [[re.sub(r"^\['fail', '(m\d+)', '(\d+)'\]$", r"\1", p["cmd"]), int(p["code"]), p["out"].strip("\n"), p["err"].strip("\n")] for p in procs]
    first = next((x for x in tb), ["~", 0, ""])
    return dict(outcome="ok", rc=rc, end=end, stack=stack, stacks=stacks, tb=len(tb), first=first[:2], last=(tb or [["~", 0, ""]])[-1][:2], final=final[:300], type=re.split(r"[:\s]", final)[0].split(".")[-1] if final else "~", key=token(final), procs=ok, lines=lines, cwd=left, err=err.getvalue()[-1500:])
