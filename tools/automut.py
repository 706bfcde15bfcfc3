#!/usr/bin/env python3
"""automut.py OUT [--files a.py,b.py] [--every K] [--offset O] [--max N] [-j J] [--list]: syntactic mutants of
src/fora on scratch copies, each run against the checks responsible for the mutated code until one notices.
A development tool: survivors are looked at by hand (equivalent, or a gap)."""
import ast, json, os, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
def opt(n, d):
    if n in sys.argv: i = sys.argv.index(n); v = sys.argv[i + 1]; del sys.argv[i:i + 2]; return v
    return d
files, every, off, mx, J = opt("--files", ""), int(opt("--every", 1)), int(opt("--offset", 0)), opt("--max", "150"), int(opt("-j", 3))
only = opt("--checks", "")
LIST = "--list" in sys.argv
if LIST: sys.argv.remove("--list")
OUT = sys.argv[1] if len(sys.argv) > 1 else None
SRC = "/repo/src/fora"
INV = ["C01", "C03", "C04", "C02"]
MAP = {   # file -> [(function prefix or "", checks)]
 "connection.py": [("", ["C08", "C10", "C06", "C09", "C29"])],
 "connectors/connector.py": [("", ["C24", "C06"])],
 "connectors/ssh.py": [("", ["C24", "C09"])],
 "connectors/local.py": [("", ["C24", "C09"])],
 "connectors/tunnel_connector.py": [("run", ["C08", "C06", "C07"]), ("open", ["C09", "C24", "C07"]), ("close", ["C09"]), ("", ["C06", "C07", "C09", "C08"])],
 "connectors/tunnel_dispatcher.py": [("", ["C06", "C08", "C07", "C09"])],
 "inventory_wrapper.py": [("", ["C01", "C03", "C04", "C02", "C24", "C29", "C05"])],
 "utils.py": [("rank_sort", ["C01", "C04", "C03"]), ("load_py_module", ["C11", "C02", "C10"]), ("check_host_active", ["C11", "C12"]), ("import_submodules", ["C24", "C12"]), ("print_", ["C28"]), ("", ["C05", "C04", "C11"])],
 "loader.py": [("", ["C28", "C11", "C10", "C05", "C04", "C01", "C02"])],
 "logger.py": [("", ["C28", "C26"])],
 "example_deploys.py": [("", ["C27"])],
 "main.py": [("", ["C05", "C26", "C28", "C27"])],
 "types.py": [("RemoteDefaultsContext", ["C10"]), ("ScriptWrapper", ["C10", "C11"]), ("HostWrapper", ["C21", "C24", "C02", "C29", "C05", "C04"]), ("", ["C02", "C03", "C21", "C11", "C04"])],
 "remote_settings.py": [("", ["C08", "C10"])],
 "operations/api.py": [("", ["C13", "C15", "C14", "C05"])],
 "operations/utils.py": [("save_content", ["C12", "C14", "C16", "C13", "C22"]), ("generic_package", ["C19", "C14"]), ("check_absolute_path", ["C12", "C15"]), ("", ["C19", "C20", "C15", "C12"])],
 "operations/files.py": [("line", ["C17", "C14"]), ("upload_dir", ["C22", "C14"]), ("_render", ["C21", "C12"]), ("", ["C12", "C14", "C15", "C16", "C13"])],
 "operations/apt.py": [("", ["C19", "C14"])], "operations/pacman.py": [("", ["C19", "C14"])], "operations/portage.py": [("", ["C19", "C14"])],
 "operations/systemd.py": [("", ["C20", "C14"])],
 "operations/system.py": [("package", ["C19"]), ("service", ["C20"]), ("", ["C18", "C14"])],
 "operations/git.py": [("", ["C23", "C14"])],
 "operations/local.py": [("", ["C11"])],
}
SKIPCALL = ("logger.", "print", "die_error", "show_inventory", "op.desc")
def mutants(path):
    src = open(path).read(); tree = ast.parse(src); lines = src.split("\n")
    offs = [0]
    for l in lines: offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode(); out = []
    def span(n): return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset
    def rep(n, new, kind, fn):
        a, e = span(n); out.append((fn, n.lineno, kind, a, e, new))
    def txt(n): a, e = span(n); return b[a:e].decode()
    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): fn = (fn + "." if fn else "") + n.name
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and txt(n.value.func).startswith(SKIPCALL): return
        if isinstance(n, ast.Raise):
            rep(n, "pass", "noraise", fn); return
        if isinstance(n, ast.If) and "TYPE_CHECKING" in txt(n.test): return
        if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
            if not isinstance(n.test, ast.Constant): rep(n.test, f"(not ({txt(n.test)}))", "negate", fn)
        if isinstance(n, ast.comprehension):
            for i in n.ifs: rep(i, "True", "nofilter", fn)
        if isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                keep = [txt(w) for j, w in enumerate(n.values) if j != i]
                rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({k})" for k in keep) + ")", f"drop:{txt(v)[:30]}", fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}.get(type(n.ops[0]))
            if sw: rep(n, f"({txt(n.left)} {sw} {txt(n.comparators[0])})", "cmp" + sw, fn)
        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)): rep(n, "pass", "delete", fn)
        if isinstance(n, ast.AugAssign): rep(n, "pass", "delete", fn)
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)): rep(n, "pass", "delete", fn)
        if isinstance(n, ast.Delete): rep(n, "pass", "delete", fn)
        if isinstance(n, (ast.Continue, ast.Break)): rep(n, "pass", "nojump", fn)
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None): rep(n.value, "None", "retnone", fn)
        if isinstance(n, ast.Constant) and n.value in (True, False) and isinstance(n.value, bool): rep(n, str(not n.value), "flip", fn)
        elif isinstance(n, ast.Constant) and isinstance(n.value, int): rep(n, str(n.value + 1), "inc", fn)
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and fn: rep(n, repr(n.value + "x"), "str", fn)
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    a, e = span(k); 
                    while chr(b[e]) in " \n": e += 1
                    if chr(b[e]) == ",": e += 1
                    else:
                        a2 = a - 1
                        while chr(b[a2]) in " \n": a2 -= 1
                        a = a2 if chr(b[a2]) == "," else a
                    out.append((fn, k.value.lineno, f"dropkw:{k.arg}", a, e, ""))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not): rep(n, f"({txt(n.operand)})", "unnot", fn)
        if isinstance(n, ast.JoinedStr): return
        for f, c in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list"): continue
            for x in (c if isinstance(c, list) else [c]):
                if isinstance(x, ast.AST): visit(x, fn)
    visit(tree, "")
    return b, out
todo = []
for f, rules in MAP.items():
    if files and f not in files.split(","): continue
    b, ms = mutants(f"{SRC}/{f}")
    for fn, ln, kind, a, e, new in ms:
        if not fn and kind in ("str", "retnone", "delete"): continue
        if fn in ("show_inventory", "print_table", "print_fullwith", "ansilen", "ansipad", "len_ignore_leading_ansi") or "show_inventory." in fn: continue
        ch = next((c for pre, c in rules if any(x.startswith(pre) for x in ([fn] + fn.split(".")))), [])
        todo.append((f, fn, ln, kind, b[:a] + new.encode() + b[e:], b[a:e].decode()[:60].replace("\n", " "), ch))
import random
random.Random(7).shuffle(todo)
todo = todo[off::every]
if LIST: print(len(todo)); [print(*t[:4], "|", t[5], t[6]) for t in todo[:60]]; sys.exit()
done = set()
if os.path.exists(OUT):
    for l in open(OUT): done.add(l.split(" => ")[0])
lock = threading.Lock()
def run(t):
    f, fn, ln, kind, code, old, ch = t
    name = f"{f}:{ln} {fn} {kind} `{old}`"
    if name in done: return
    try: compile(code, f, "exec")
    except SyntaxError: return
    d = tempfile.mkdtemp(prefix="camp-", dir="/tmp"); os.chmod(d, 0o755); res = "MISSED"
    try:
        r = f"{d}/repo"
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        open(f"{r}/src/fora/{f}", "wb").write(code)
        for c in (only.split(",") if only else ch):
            try: out = subprocess.run(["python3", "check.py", c, "--no-model"] + (["--max", mx] if mx != "0" else []), cwd="/verif", env=dict(os.environ, VERIF_REPO=r, VERIF_SCRATCH=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200 if mx != "0" else 900)
            except subprocess.TimeoutExpired: res = f"{c} TIMEOUT"; break
            if out.returncode == 1: res = f"caught {c}"; break
            if out.returncode: res = f"{c} rc={out.returncode} {out.stdout.decode()[-300:]!r}"; break
    finally: shutil.rmtree(d, ignore_errors=True)
    with lock:
        with open(OUT, "a") as o: o.write(f"{name} => {res}\n")
with ThreadPoolExecutor(J) as ex: list(ex.map(run, todo))
