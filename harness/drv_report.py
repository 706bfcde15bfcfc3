"""Runs operations with various output options and parses what they print (C26)."""
import contextlib, io, os, re, sys
import vhost, drv_files

ANSI = re.compile("\033\\[[0-9;]*m")
TOK = dict(SP=b" ", TAB=b"\t", CR=b"\r", NUL=b"\0", ESC=b"\x1b", BEL=b"\x07", DEL=b"\x7f", XFF=b"\xff", NEL="\x85".encode(), EACUTE="é".encode(), CJK="漢".encode(),
           SMILE="🐸".encode(), LSEP="\u2028".encode(), RLO="\u202e".encode(), TAGA="\U000e0041".encode(), BACKSL=b"\\", NL=b"\n")
def data(tokens): return None if tokens == ["ABSENT"] else b"".join(TOK.get(t, t.encode()) for t in tokens)
def plain(s): return "".join(c if " " <= c <= "~" else f"<{ord(c):X}>" for c in s)
def short(s): return (plain(s[:-1]), True) if s.endswith("…") else (plain(s), False)
VAL = {"~": None, "true": True, "false": False, "int0": 30, "int1": 41, "empty": "", "bytes": b"\x01\xab" * 20, "list": ["x"], "long": "abcdefghijklmnopqrstuvwxyz", "nine": "123456789", "ten": "1234567890",
       "longb": "abcdefghijklmnopqrstuvwxyy", "emptylist": [], "sp": "a b", "eacute": "é" * 12}
def dec(v): return VAL.get(v, v)
def txt(v): return "~" if v is None else plain(v.hex() if isinstance(v, bytes) else str(v))

def parse(text, level, outer):
    """what an operation printed: title, failure, state entries, differences"""
    o = dict(early=0, title="~", failure="~", items=[], diffs=[])
    garbage, body = [], []
    lines = ANSI.sub("", text).split("\n")
    if lines and lines[-1] == "": lines.pop()
    for l in lines:
        l = l.split("\r")[-1] if "\r" in l else l
        if l == "" and o["early"] and o["title"] == "~": continue     # (ends the preliminary status line of an operation with nested ones)
        if not re.match("( {2}|[│╵] ){%d}" % level, l): garbage.append(plain(l)); continue
        l = l[2 * level:]
        if l.endswith(" (early status)"): o["early"] += 1; continue
        if outer is not None and l.startswith("outer "): outer = None; continue
        if l.startswith(" └ "): o["failure"] = plain(l[3:])
        elif l[:2] in ("├ ", "└ ", "│ "): body.append(l)
        elif o["title"] == "~": o["title"] = plain(l)
        elif o["failure"] != "~": o["failure"] += "<A>" + plain(l)
        else: garbage.append(plain(l))
    if body and (body[0][0] == "├" or len(body) == 1):
        for it in body.pop(0)[2:].split(", "):
            k, _, v = it.partition(": ")
            old, has, new = v.partition(" → ")
            if not has: old, new = "", v
            (k, kell), (old, oell), (new, nell) = short(k), short(old), short(new)
            o["items"].append(dict(k=k, kell=kell, old=old, oell=oell, new=new, nell=nell, has=bool(has)))
    o["diffs"], g = difflines([l[2:] for l in body])
    return o, garbage + g

def difflines(ls):
    res, garbage, i = [], [], 0
    while i < len(ls):
        l = ls[i]
        m = re.fullmatch("(created|deleted|modified): (.*)", ls[i + 1]) if re.fullmatch("─+", l) and i + 2 < len(ls) and ls[i + 2] == l else None
        if m:
            res.append(dict(action=m[1], file=plain(m[2]), hunks=[])); i += 3; continue
        m = re.fullmatch(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", l)
        if m and res: res[-1]["hunks"].append(dict(a=int(m[1]), al=int(m[2] or 1), b=int(m[3]), bl=int(m[4] or 1), lines=[]))
        elif l[:1] in ("+", "-", " ") and res and res[-1]["hunks"]: res[-1]["hunks"][-1]["lines"].append([l[0], plain(l[1:])])
        else: garbage.append(plain(l))
        i += 1
    return res, garbage

class Console(io.TextIOWrapper):
    """standard output of the program, which is a terminal or not"""
    tty = False
    def isatty(self): return self.tty

def run_case(scn, d):
    import fora, fora.connection, fora.loader, fora.main
    from fora.connectors.connector import Connector
    for v in ("NO_COLOR",): os.environ.pop(v, None)
    vhost.setup_args(**scn["args"])
    root = os.path.realpath(d) + "/fs"; os.mkdir(root)
    st = dict(fault=None, n=0, hit=False, log=[], guard=[])
    cls = drv_files.make_connector(root, st)
    cli, events = scn["cli"], []
    if not cli["on"]:
        host = vhost.new_host("local:vh", connector=cls)
        with vhost.quiet(): conn = fora.connection.open_connection(host); conn.__enter__()
        try: execute(scn, d, root, events)
        finally:
            with vhost.quiet(): conn.__exit__(None, None, None)
        return dict(outcome="ok", events=events, cli="~")
    # the same as a script, run by the command line program
    Connector.registered_connectors["vrep"] = cls; cls.schema = "vrep"
    JOB["run"] = lambda: execute(scn, d, root, events)
    script = f"{d}/deploy.py"
    with open(script, "w") as f: f.write("import drv_report\ndrv_report.JOB['run']()\n")
    if cli["env"]: os.environ["NO_COLOR"] = "1"
    hook, rc = sys.excepthook, 0
    fora.host = fora.script = fora.args = None
    with Console(open(f"{d}/stdout", "wb"), "utf-8") as so, open(f"{d}/stderr", "w") as se:
        so.tty = cli["tty"]
        with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
            try: fora.main.main(cli["before"] + ["vrep:x", script] + cli["after"])
            except SystemExit as e: rc = 0 if e.code in (None, 0) else 1
            except Exception as e: rc = 1; se.write(f"{type(e).__name__}: {e}")
            finally: sys.excepthook = hook; fora.host = None; os.environ.pop("NO_COLOR", None)
    with open(f"{d}/stdout", errors="replace") as f: so = f.read()
    with open(f"{d}/stderr", errors="replace") as f: se = f.read()
    lines = [plain(re.sub("^( {2}|[│╵] )+", "", l)) for l in ANSI.sub("", so).replace(d, "D").split("\n") if l]
    return dict(outcome="ok", events=events, cli=dict(rc=rc, lines=lines, ansi="\033" in so, err=plain(se[-300:]), stderr=bool(se)))
JOB = {}

def execute(scn, d, root, events):
    import fora, fora.logger
    from fora.operations import files
    from fora.operations.api import Operation, OperationError, operation

    @operation("synth")
    def synth(s, name=None, check=True, op=Operation.internal_use_only):
        op.desc(s["desc"])
        if s["early"] == "exc": raise ValueError(s["msg"])
        op.initial_state(**{k: dec(v) for k, v in s["initial"]})
        op.final_state(**{k: dec(v) for k, v in s["final"]})
        for x in s["diffs"]: op.diff(x["file"], data(x["old"]), data(x["new"]))
        if s["end"] == "operror": raise OperationError(s["msg"])
        if s["end"] == "exc": raise ValueError(s["msg"])
        return op.failure(s["msg"]) if s["end"] == "failure" else op.success()
    @operation("outer")
    def outer(fn, name=None, check=True, op=Operation.internal_use_only):
        op.nested(True); op.desc("operation")
        r = fn()
        op.add_nested_result("x", r)
        return op.success()

    base = fora.logger.state.indentation_level
    for k, s in enumerate(scn["steps"]):
        buf, box = io.StringIO(), {}
        ev = dict(kind=s["kind"])
        if s["kind"] == "diff":
            ls = fora.logger.diff(s["file"], data(s["old"]), data(s["new"]), color=not fora.args.no_color)
            ds, g = difflines([ANSI.sub("", l) for l in ls])
            ev.update(old=s["old"], new=s["new"], file=s["file"], out=dict(diffs=ds), garbage=g, ansi=any("\033" in l for l in ls))
            events.append(ev); continue
        if s["kind"] == "op":
            given = None if s["name"] == "~" else s["name"]
            call = (lambda: synth(s, given, s["check"])) if k % 2 else lambda: synth(s, name=given, check=s["check"])
            fails = s["early"] == "exc" or s["end"] != "success"
            exc = s["early"] == "exc" or s["end"] == "exc"
            ev.update(op="synth", desc=s["desc"], name=s["name"], diffs=s["diffs"], message=s["msg"], before="none", after="none", effect="none",
                      want="ok" if not fails else "raise" if exc or s["check"] else "failed")
        else:
            p = f"{root}/{s['file']}"
            old, new = data(s["old"]), data(s["new"])
            if old is not None:
                with open(p, "wb") as f: f.write(old)
                os.chmod(p, int(s["mode0"], 8))
            def call():
                if s["how"] == "bytes" and k % 2: return files.upload_content(new, p, s["mode"], None, None, None if s["name"] == "~" else s["name"])
                if s["how"] == "bytes": return files.upload_content(content=new, dest=p, mode=s["mode"], name=None if s["name"] == "~" else s["name"])
                if s["how"] == "line": return files.line(p, "unique", name=None if s["name"] == "~" else s["name"])
                src = f"{d}/src{k}"
                with open(src, "wb") as f: f.write(new)
                return files.upload(src=src, dest=p, mode=s["mode"], name=None if s["name"] == "~" else s["name"])
            ev.update(op=dict(bytes="upload_content", file="upload", line="line")[s["how"]], name=s["name"], diffs=[dict(file=plain(p), old=s["old"], new=s["new"])], message="~", want="ok", before="old" if old != new else "same", after="new" if old != new else "same")
        with contextlib.ExitStack() as es:
            for _ in range(s["indent"]): es.enter_context(fora.logger.indent())
            es.enter_context(fora.script.defaults(cwd=root))
            es.enter_context(contextlib.redirect_stdout(buf)); es.enter_context(contextlib.redirect_stderr(io.StringIO()))
            def wrapped():
                r = call(); box["r"] = r
                return r
            try:
                if s["nested"]: outer(wrapped, check=s["check"])
                else: wrapped()
                res = "ok" if box["r"].success else "failed"
            except OperationError: res = "raise"
            except ValueError: res = "raise"
        out, garbage = parse(buf.getvalue(), base + s["indent"], s["nested"] or None)
        r = box.get("r")
        if s["kind"] == "op":
            ini, fin = s["initial"], s["final"]
            ini, fin = [[a, txt(dec(b))] for a, b in ini], [[a, txt(dec(b))] for a, b in fin]
        else:
            ini, fin = [[[a, txt(b)] for a, b in x.items()] for x in ((r.initial, r.final) if r else ({}, {}))]
            try:
                with open(p, "rb") as f: now = f.read()
            except FileNotFoundError: now = None
            ev["effect"] = "same" if now == old == new else "old" if now == old else "new" if now == new else "other"
            ev["desc"] = plain(s.get("desc") or p)
        ev.update(res=res, out=out, garbage=garbage, initial=ini, final=fin, ansi="\033" in buf.getvalue())
        events.append(ev)
