"""Drives real connections: request sequences, cut streams and life cycles."""
import os, signal, socket, stat as st, subprocess, sys, time
import vhost
from vhost import tok, stok, content, text

ENVVARS = {b"VT_A": b"hello", b"VT_EMPTY": b"", b"VT_BAD": b"a\xff\xfe\x80z", b"VT_UTF": "ä€".encode()}
for k, v in ENVVARS.items(): os.environb[k] = v

SH = r'''cat; shift 0; printf '%s\0' "$@" >&2; case "$0" in k*) kill -${0#k} $$;; *) exit $0;; esac'''

def fields(obj, names): return {n: getattr(obj, n) for n in names}

OTHER = object()
def perform(conn, r, d):
    """Performs one request; returns the JSON outcome."""
    P = lambda p: (os.path.join(d, text(p)) if not isinstance(p, list) or p[0] == "s" else os.path.join(d, text(p)))
    op = r["op"]
    # an alternative given by the caller stands for what does not exist
    given = r.get("dflt", False) and not isinstance(conn, DirectConn)
    dflt, dfltkw = ((OTHER,), dict(default=OTHER)) if given else ((), {})
    absent = lambda v: v is OTHER if given else v is None
    try:
        if op == "upload":
            conn.upload(P(r["path"]), content(r["content"]), mode=r["mode"], owner=text(r["owner"]), group=text(r["group"]))
            return dict(o="ok")
        if op in ("download", "download_or"):
            v = conn.download(P(r["path"])) if op == "download" else conn.download_or(P(r["path"]), *dflt)
            return dict(o="none") if absent(v) else dict(o="ok", v=tok(v))
        if op == "stat":
            s = conn.stat(P(r["path"]), follow_links=r["follow"], sha512sum=r["sha"])
            if s is None: return dict(o="none")
            return dict(o="ok", v=dict(type=s.type, size=s.size, mode=s.mode, owner=s.owner, group=s.group, sha=tok(s.sha512sum), mtime=str(s.mtime), ctime=str(s.ctime)))
        if op == "run":
            res = conn.run(["sh", "-c", SH, r["rc"]] + [text(a) for a in r["args"]], input=content(r["input"]), capture_output=r["capture"], check=r["check"])
            return dict(o="ok", v=runval(res.stdout, res.stderr, res.returncode))
        if op == "badrun":
            res = conn.run([text(a).replace("@D", d) for a in r["cmd"]], **r.get("opts", {}))
            return dict(o="ok", v=runval(res.stdout, res.stderr, res.returncode))
        if op == "die":
            conn.run(["sh", "-c", "kill -9 $PPID; exec sleep 0.05"])
            return dict(o="ok")
        if op == "resolve_user": return dict(o="ok", v=conn.resolve_user(text(r["name"])))
        if op == "resolve_group": return dict(o="ok", v=conn.resolve_group(text(r["name"])))
        if op == "query_user":
            u = conn.query_user(text(r["name"]), query_password_hash=r["hash"], **dfltkw)
            if absent(u): return dict(o="none")
            return dict(o="ok", v=dict(name=u.name, uid=u.uid, group=u.group, gid=u.gid, groups=sorted(u.groups), gecos=u.gecos, home=u.home, shell=u.shell,
                                       hash="~none" if u.password_hash is None else u.password_hash))
        if op == "query_group":
            g = conn.query_group(text(r["name"]), **dfltkw)
            return dict(o="none") if absent(g) else dict(o="ok", v=dict(name=g.name, gid=g.gid, members=g.members))
        if op == "home_dir": return dict(o="ok", v=conn.home_dir(text(r["name"])))
        if op == "getenv":
            v = conn.getenv(text(r["name"]), *dflt)
            return dict(o="none") if absent(v) else dict(o="ok", v=stok(v))
    except subprocess.CalledProcessError as e:
        return dict(o="failed", v=runval(e.output, e.stderr, e.returncode))
    except Exception as e:
        return dict(o="err", detail=f"{type(e).__name__}: {str(e)[:200]}")
    raise ValueError(op)

def runval(out, err, rc):
    return dict(out=tok(out), args=["~none"] if err is None else [tok(a) for a in err.split(b"\0")[:-1]], rc=rc)

def annotate(r):
    """Adds the tokens of what is sent (so that the recording is self-contained)."""
    q = dict(r)
    if "path" in r: q["reach"] = "ok" if not isinstance(r["path"], str) else "long" if len(r["path"]) > 255 else "file" if r["path"].startswith("neg/") else "ok"
    if "path" in r: q["path"] = r["path"] if isinstance(r["path"], str) else "~" + "".join(map(str, r["path"]))
    if r["op"] == "upload":
        c = content(r["content"]); q["tok"] = tok(c); q["size"] = len(c)
        import hashlib
        q["sha"] = tok(hashlib.sha512(c).digest())
        for k in ("mode", "owner", "group"): q[k] = "~" if r[k] is None else r[k]
        q.pop("content")
    if r["op"] == "run":
        q["input"] = tok(content(r["input"]) or b"")
        q["args"] = ["~lone" if a == ["lone"] else stok(text(a)) for a in r["args"]]
    if r["op"] == "badrun": q.pop("cmd"); q.pop("opts", None)
    q.pop("dflt", None)
    if "name" in r and not isinstance(r["name"], str): q["name"] = "~" if r["name"] is None else "~bad"
    return q

def truth(r, d):
    """What the operating system says about the path of a stat request."""
    if r["op"] != "stat": return None
    try: t = os.stat(os.path.join(d, text(r["path"])), follow_symlinks=r["follow"])
    except (OSError, ValueError): return None
    return dict(mtime=str(t.st_mtime_ns), ctime=str(t.st_ctime_ns))

def disp(p):
    b = os.fsencode(p)
    return p if b.isascii() else "~s" + b.hex()

def prepare(d):
    J = lambda n: os.path.join(d, n)
    os.symlink("gone", J("dang")); os.symlink("loop", J("loop")); os.mkfifo(J("ff"))
    with open(J("own"), "w"): pass
    os.chown(J("own"), 77777, 88888); os.chmod(J("own"), 0o4711)
    k = socket.socket(socket.AF_UNIX); cwd = os.getcwd(); os.chdir(d); k.bind("sk"); os.chdir(cwd); k.close()
    os.mkdir(os.path.join(d, "sub"))
    with open(os.path.join(d, "neg"), "wb") as f: f.write(b"old")
    os.utime(os.path.join(d, "neg"), ns=(-5_000_000_000, -5_000_000_000))
    os.symlink("f1", os.path.join(d, "lnk"))
    os.chmod(os.path.join(d, "neg"), 0o640)

def run_case(scn, d):
    vhost.setup_args()
    return dict(seq=case_seq, cutresp=case_cutresp, cutreq=case_cutreq, life=case_life)[scn["kind"]](scn, d)

# --- request sequences ------------------------------------------------------
def case_seq(scn, d):
    import fora.connection
    prepare(d)
    host = vhost.new_host()
    events = []
    with vhost.quiet():
        try:
            with fora.connection.open_connection(host) as conn:
                for r in scn["reqs"]:
                    events.append(dict(req=annotate(r), fs=truth(r, d), res=perform(conn, r, d)))
            outcome = "ok"
        except Exception as e:
            outcome = f"exc:{type(e).__name__}:{e}"[:200]
    files = {}
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(root, f)
            if not st.S_ISREG(os.lstat(p).st_mode): continue
            with open(p, "rb") as fh: files[disp(os.path.relpath(p, d))] = tok(fh.read())
    return dict(outcome=outcome, events=events, files=[dict(path=k, tok=v) for k, v in sorted(files.items())], env=ENV)

ENV = dict(vhost.small_accounts(), environ={k.decode(): tok(v) for k, v in ENVVARS.items()})

def transport(c):
    """The transport process of an open connector, wherever the connector keeps it."""
    todo, seen = [c], set()
    while todo:
        o = todo.pop(0)
        if isinstance(o, subprocess.Popen): return o
        if id(o) in seen or len(seen) > 500: continue
        seen.add(id(o))
        if isinstance(o, dict): todo += list(o.values())
        elif isinstance(o, (list, tuple)): todo += list(o)
        elif hasattr(o, "__dict__") and not isinstance(o, type): todo += list(vars(o).values())
    raise RuntimeError("the connector has no transport process")

# --- cut streams --------------------------------------------------------------
def record_session(d, reqs, tag):
    """Runs a real session through recording pipes; returns (request bytes, response bytes, outcomes)."""
    from fora.connectors.local import LocalConnector
    class Rec(LocalConnector):
        def command(self):
            import shlex
            cmd = " ".join(shlex.quote(x) for x in super().command())
            return ["sh", "-c", f"tee {d}/{tag}.req | {cmd} | tee {d}/{tag}.resp"]
    host = vhost.new_host()
    c = Rec("local:x", host)
    outs = []
    with vhost.quiet():
        c.open()
        from fora.connection import Connection
        for r in reqs: outs.append(perform(DirectConn(c), r, d))
        # End the session without an orderly shutdown, so that the recording holds exactly these requests.
        proc = transport(c)
        proc.stdin.close()
        proc.wait()
        proc.stdout.close()
    with open(f"{d}/{tag}.req", "rb") as f: q = f.read()
    with open(f"{d}/{tag}.resp", "rb") as f: p = f.read()
    return q, p, outs

class DirectConn:
    """Presents a bare connector with the connection API (no defaults)."""
    def __init__(self, c): self.c = c
    def __getattr__(self, n): return getattr(self.c, n)
    def download_or(self, f):
        return self.c.download(f)

def effect_files(d):
    return sorted(os.listdir(os.path.join(d, "eff")))

def case_cutresp(scn, d):
    """For every cut position in the scenario, serve exactly that prefix of a recorded response stream."""
    from fora.connectors.local import LocalConnector
    prepare(d); os.mkdir(os.path.join(d, "eff"))
    _, ack, _ = record_session(d, [], "base")
    _, full, good = record_session(d, [scn["req"]], "full")
    total = len(full)
    cuts = scn["cuts"] if scn["cuts"] != "all" else list(range(0, total + 1))
    cuts = sorted({c if c >= 0 else max(0, total + c + 1) for c in cuts if abs(c) <= total} | {len(ack), max(len(ack), total - 1), total})
    events = []
    for cut in cuts:
        fn = f"{d}/cut"
        with open(fn, "wb") as f: f.write(full[:cut])
        class Canned(LocalConnector):
            def command(self): return ["sh", "-c", f"cat {fn}; exec >&-; exec cat >/dev/null"]
        c = Canned("local:x", vhost.new_host())
        ev = dict(cut=cut, ack=len(ack), total=total, first="~", second="~", closed="~", same=False)
        with vhost.quiet():
            try:
                c.open()
                ev["open"] = "ok"
            except Exception as e:
                ev["open"] = "err"
            if ev["open"] == "ok":
                r = perform(DirectConn(c), scn["req"], d)
                ev["first"], ev["same"] = r["o"], r == good[0]
                r2 = perform(DirectConn(c), scn["req2"], d)
                ev["second"] = r2["o"]
                try:
                    c.close(); ev["closed"] = "ok"
                except Exception as e:
                    ev["closed"] = "err"
        events.append(ev)
    return dict(outcome="ok", events=events, good=good[0]["o"])

def case_cutreq(scn, d):
    """Feed every prefix of a recorded request stream to a real dispatcher and look for effects."""
    import fora
    from fora.connectors.local import LocalConnector
    prepare(d); os.mkdir(os.path.join(d, "eff"))
    q0, _, _ = record_session(d, [], "base")
    q, _, good = record_session(d, [scn["req"]], "full")
    for f in effect_files(d): os.unlink(os.path.join(d, "eff", f))
    cmd = LocalConnector("local:x", vhost.new_host()).command()
    total = len(q)
    lo = len(q0)
    n = scn["n"]
    cuts = list(range(lo, total)) if n == 0 else sorted({lo + (total - lo) * i // n for i in range(n)} | set(range(max(lo, total - 12), total)))
    cuts.append(total)
    events = []
    for i in range(0, len(cuts), 8):
        procs = []
        for cut in cuts[i:i + 8]:
            e = os.path.join(d, "eff", scn["eff"])
            procs.append(cut)
        for cut in procs:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            try:
                p.communicate(q[:cut], timeout=20)
                ended = "yes"
            except subprocess.TimeoutExpired:
                p.kill(); p.communicate(); ended = "no"
            eff = effect_files(d)
            for f in eff: os.unlink(os.path.join(d, "eff", f))
            events.append(dict(cut=cut, total=total, effect=len(eff) > 0, ended=ended))
    return dict(outcome="ok", events=events, good=good[0]["o"])

# --- life cycle -----------------------------------------------------------------
def proc_alive(pid):
    try:
        with open(f"/proc/{pid}/stat") as f: return f.read().rsplit(")", 1)[1].split()[0] != "Z"
    except OSError:
        return False

STUCK = set()
def wait_dead(pid, grace=8.0):
    # once several processes were found not to end, don't wait that long for the next ones
    end = time.time() + (grace if len(STUCK) < 3 and pid not in STUCK else 0.2)
    while time.time() < end:
        if not proc_alive(pid): return True
        time.sleep(0.01)
    STUCK.add(pid)
    return False

class Boom(Exception): pass

def case_life(scn, d):
    import fora, fora.connection
    from fora.connectors.local import LocalConnector
    _, ack, _ = record_session(d, [], "base")
    with open(f"{d}/ack", "wb") as f: f.write(ack)
    state = dict(mode="ok", pids=[])
    class C(LocalConnector):
        def command(self):
            import shlex
            n = len(state["pids"])
            pf = f"{d}/pid{n}"
            state["pids"].append(pf)
            real = " ".join(shlex.quote(x) for x in super().command())
            pre = f"echo $$ > {pf}; "
            m = state["mode"]
            if m == "ok": return ["sh", "-c", pre + f"exec {real}"]
            if m == "slow": return ["sh", "-c", pre + f"{real}; sleep 0.4"]    # the transport needs a moment to end
            if m == "nocmd": state["pids"].pop(); return ["/nonexistent/cmd"]
            if m == "exit": return ["sh", "-c", pre + "exit 7"]
            if m == "closed": return ["sh", "-c", pre + "exec >&-; exec sleep 600"]
            if m == "garbage": return ["sh", "-c", pre + "printf '\\377\\377\\377\\377\\377\\377\\377\\377'; exec sleep 600"]
            if m == "wrongtype": return ["sh", "-c", pre + "printf '\\0\\0\\0\\0'; exec sleep 600"]
            if m == "acknoid": return ["sh", "-c", pre + f"cat {d}/ack; exec >&-; exec cat > /dev/null"]
            if m == "ackgarbage": return ["sh", "-c", pre + f"cat {d}/ack; printf '\\377\\377\\377\\377'; exec cat > /dev/null"]
            if m == "ackexit": return ["sh", "-c", pre + f"cat {d}/ack; exit 0"]
            raise ValueError(m)
    host = vhost.new_host(connector=C)
    events = []
    held = [None]
    def pid():
        if not state["pids"]: return None
        try:
            with open(state["pids"][-1]) as f: return int(f.read())
        except (OSError, ValueError): return None
    def observe(ev, grace=False):
        ps = []
        for pf in state["pids"]:
            try:
                with open(pf) as f: ps.append(int(f.read()))
            except (OSError, ValueError): pass
        if grace: alive = sum(0 if wait_dead(p) else 1 for p in ps)
        else: alive = sum(1 if proc_alive(p) else 0 for p in ps)
        ev["exposed"] = host.connection is not None
        ev["alive"] = alive
        events.append(ev)
    probe = dict(op="getenv", name="VT_A")
    with vhost.quiet():
        for sess in scn["sessions"]:
            state["mode"] = sess["mode"]
            slack = sess["mode"] != "slow"
            entered = False
            try:
                cm = state["cm"] if sess.get("reuse") and "cm" in state else fora.connection.open_connection(host)
                state["cm"] = cm
                with cm as conn:
                    entered = True
                    held[0] = conn
                    observe(dict(ev="open", mode=sess["mode"], res="ok"))
                    for step in sess["steps"]:
                        if step == "use": observe(dict(ev="use", res=perform(conn, probe, d)["o"]))
                        elif step == "remoteerr": observe(dict(ev="remoteerr", res=perform(conn, dict(op="download", path="nope"), d)["o"]))
                        elif step == "kill":
                            os.kill(pid(), signal.SIGKILL); wait_dead(pid())
                            observe(dict(ev="kill", res="ok"))
                        elif step == "raise":
                            raise Boom()
                        elif step == "interrupt":
                            raise KeyboardInterrupt()
                observe(dict(ev="leave", res="ok", how="normal"), grace=slack)
            except (Boom, KeyboardInterrupt):
                observe(dict(ev="leave", res="ok", how="exception"), grace=slack)
            except Exception as e:
                if entered: observe(dict(ev="leave", res="err", how="normal", detail=f"{type(e).__name__}: {e}"[:200]), grace=True)
                else: observe(dict(ev="open", mode=sess["mode"], res="err", detail=f"{type(e).__name__}: {e}"[:200]), grace=True)
            if held[0] is not None:
                for probe2 in (probe, dict(op="stat", path="ack", follow=False, sha=False)):
                    observe(dict(ev="useclosed", res=perform(held[0], probe2, d)["o"]))
    for pf in state["pids"]:
        try:
            with open(pf) as f: os.kill(int(f.read()), signal.SIGKILL)
        except (OSError, ValueError): pass
    return dict(outcome="ok", events=events)
