"""Drives single remote commands with all combinations of settings (C08)."""
import contextlib, grp, os, pwd, stat, subprocess, sys
import vhost
from vhost import tok, stok, content, text

# Appends what the command finds to the log, then behaves as asked for.
PROBE = r'''
log=$1; out=$2; err=$3; rc=$4; shift 4
{ echo "uid $(id -u)"; echo "gid $(id -g)"; echo "groups $(id -G)"; echo "umask $(umask)"; echo "cwd $(pwd -P)"
  for a; do printf 'arg '; printf '%s' "$a" | od -An -v -tx1 | tr -d ' \n'; echo; done
  printf 'stdin '; od -An -v -tx1 | tr -d ' \n'; echo; echo end; } >> "$log"
printf "$out"; printf "$err" >&2
case "$rc" in k*) kill -${rc#k} $$;; *) exit $rc;; esac
'''

def parse(log, d):
    runs, cur = [], None
    for line in log.split("\n"):
        k, _, v = line.partition(" ")
        if k == "uid": cur = dict(uid=int(v), args=[], complete=False); runs.append(cur)
        elif cur is None: continue
        elif k == "gid": cur["gid"] = int(v)
        elif k == "groups": cur["groups"] = [int(x) for x in v.split()]
        elif k == "umask": cur["umask"] = v
        elif k == "cwd": cur["cwd"] = "@D" + v[len(d):] if v == d or v.startswith(d + "/") else v
        elif k == "arg": cur["args"].append(tok(bytes.fromhex(v)))
        elif k == "stdin": cur["stdin"] = tok(bytes.fromhex(v))
    return runs

@contextlib.contextmanager
def acting(me):
    """Temporarily gives this process another identity, which the processes it starts inherit."""
    if me is None:
        yield; return
    old = os.getgroups()
    os.setgroups(me[2]); os.setresgid(me[1], me[1], 0); os.setresuid(me[0], me[0], 0)
    try: yield
    finally:
        os.setresuid(0, 0, 0); os.setresgid(0, 0, 0); os.setgroups(old)

STARTABLE = {}
def startable(me):
    """Whether that user can start the interpreter and read the sources."""
    import fora.connectors.tunnel_dispatcher as td
    k = tuple(me[:2])
    if k not in STARTABLE:
        with acting(me):
            try:
                with open(td.__file__, "rb"): pass
                with os.scandir(os.path.dirname(td.__file__)): pass
                STARTABLE[k] = subprocess.run([sys.executable, "-c", "import fora.connectors.tunnel_dispatcher"], stderr=subprocess.DEVNULL, cwd="/").returncode == 0
            except OSError: STARTABLE[k] = False
    return STARTABLE[k]

def run_case(scn, d):
    import fora, fora.connection
    vhost.setup_args()
    d = os.path.realpath(d)
    for n, m in (("dir", 0o755), ("private", 0o700), ("rel", 0o755), ("sp ace", 0o755)):
        os.mkdir(os.path.join(d, n)); os.chmod(os.path.join(d, n), m)
    with open(os.path.join(d, "file"), "w"): pass
    os.symlink("dir", os.path.join(d, "link"))
    acc = vhost.small_accounts()
    dirs = {"@D/dir": ("@D/dir", "dir"), "@D/private": ("@D/private", "private"), "rel": ("@D/rel", "dir"), "@D/sp ace": ("@D/sp ace", "dir"), "/": ("/", "dir"), ".": ("@D", "dir"),
            "@D/file": ("", "file"), "@D/missing": ("", "missing"), "/tmp": (os.path.realpath("/tmp"), "dir"), "@D/link": ("@D/dir", "dir"), "@D": ("@D", "dir")}
    env = dict(acc, dirs={k: dict(real=r, kind=kd) for k, (r, kd) in dirs.items()}, basecwd="/tmp",
               self=dict(uid=os.getuid(), gid=os.getgid(), groups=os.getgroups(), cwd="@D"))
    P = lambda s: None if s is None else text(s).replace("@D", d) if isinstance(s, str) else text(s)
    me = scn.get("me")
    if me is not None:
        try: pwd.getpwuid(me[0]); grp.getgrgid(me[1])
        except KeyError: me = None
    if me is not None and me[0] != 0 and not startable(me): me = None
    if me is not None: env["self"] = dict(uid=me[0], gid=me[1], groups=me[2], cwd="@D")
    os.chdir(d)
    host = vhost.new_host()
    log = os.path.join(d, "log")
    events = []
    with vhost.quiet():
        try:
            cm = fora.connection.open_connection(host)
            with acting(me): conn = cm.__enter__()
            with contextlib.ExitStack() as stack:
                stack.push(cm)
                for e in scn["cmds"]:
                    with open(log, "w"): pass
                    os.chmod(log, 0o666)
                    r, df = e["req"], e["dflt"]
                    def call():
                        kw = dict(input=content(r["input"]), capture_output=r["capture"], check=r["check"], user=P(r["user"]), group=P(r["group"]), umask=r["umask"], cwd=P(r["cwd"]))
                        cmd = ["sh", "-c", PROBE, "probe", log, r["sout"], r["serr"], r["rc"]] + [text(a) for a in r["args"]]
                        return conn.connector.run(cmd, **kw) if e["level"] == "connector" else conn.run(cmd, **kw)
                    try:
                        if e["level"] == "connector": res = call()
                        else:
                            with fora.script.defaults(as_user=df["as_user"], as_group=df["as_group"], umask=df["umask"], cwd=P(df["cwd"])):
                                res = call()
                        o = dict(o="completed", out=tok(res.stdout), err=tok(res.stderr), rc=res.returncode)
                    except subprocess.CalledProcessError as ex:
                        o = dict(o="failed", out=tok(ex.output), err=tok(ex.stderr), rc=ex.returncode)
                    except Exception as ex:
                        o = dict(o="error", detail=f"{type(ex).__name__}: {ex}"[:200])
                    with open(log) as f: runs = parse(f.read(), d)
                    q = dict(r, args=["~lone" if a == ["lone"] else stok(text(a)) for a in r["args"]], stdin=tok(content(r["input"]) or b""),
                             out=tok(subprocess.run(["sh", "-c", 'printf "$1"', "x", r["sout"]], capture_output=True).stdout),
                             err=tok(subprocess.run(["sh", "-c", 'printf "$1"', "x", r["serr"]], capture_output=True).stdout))
                    q.pop("input")
                    events.append(dict(level=e["level"], dflt=df, req=q, res=o, runs=runs))
            outcome = "ok"
        except Exception as ex:
            outcome = f"exc:{type(ex).__name__}:{ex}"[:300]
    os.chdir("/")
    return dict(outcome=outcome, events=events, env=env)
