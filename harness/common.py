"""Shared machinery: scratch directories, TLC runner, driver pool, verdict collection, evidence.

Nothing in here knows anything about fora; expected behaviour lives exclusively in spec/*.tla.
"""
from __future__ import annotations
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

class MachineryError(Exception):
    """Something in the verification machinery (not in the code under test) went wrong."""

def mkscratch(prefix: str = "verif-") -> str:
    base = os.environ.get("VERIF_SCRATCH", "/var/tmp" if os.access("/var/tmp", os.W_OK) else "/tmp")
    d = tempfile.mkdtemp(prefix=prefix, dir=base)
    os.chmod(d, 0o755)
    return d

# ---------------------------------------------------------------------------
# TLC
# ---------------------------------------------------------------------------

class TlcResult:
    def __init__(self, rc, out, states, distinct, wall):
        self.rc, self.out, self.states, self.distinct, self.wall = rc, out, states, distinct, wall
    @property
    def ok(self):
        return self.rc == 0 and ("Model checking completed. No error has been found" in self.out
                                 or "Finished in" in self.out and "Error:" not in self.out)

def tlc(module: str, cfg: str, scratch: str, env: dict | None = None, workers: int = 4,
        timeout: float = 600, heap: str = "3g", extra: list[str] | None = None) -> TlcResult:
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch)
    cmd = ["java", f"-Djava.io.tmpdir={meta}", f"-Xmx{heap}", "-Xss32m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, min(workers, 4))}", "-cp", JAVA_CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-deadlock", "-lncheck", "final", "-workers", str(workers), "-metadir", meta,
           "-config", os.path.join(SPEC, cfg)] + (extra or []) + [os.path.join(SPEC, module)]
    e = dict(os.environ)
    e.update(env or {})
    start = time.time()
    proc = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = proc.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, signal.SIGKILL)
        proc.communicate()
        raise MachineryError(f"TLC timed out after {timeout}s on {module} {cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    text = out.decode("utf-8", "replace")
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
    states, distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    return TlcResult(proc.returncode, text, states, distinct, time.time() - start)

def model_check(models, scratch: str, workers: int = 3) -> list[dict]:
    """Exhaustively checks each (module, cfg) pair; any violation means the specification is inconsistent."""
    res = []
    for module, cfg, *rest in models:
        opts = rest[0] if rest else {}
        r = tlc(module, cfg, scratch, env=opts.get("env"), workers=opts.get("workers", workers), timeout=opts.get("timeout", 800), extra=opts.get("extra"))
        if not r.ok:
            raise MachineryError(f"specification {module}/{cfg} does not check (rc={r.rc}):\n{r.out[-6000:]}")
        res.append(dict(module=module, cfg=cfg, states=r.states, distinct=r.distinct, wall_s=round(r.wall, 2)))
    return res

def tlc_generate(module: str, cfg: str, scratch: str, env: dict | None = None, timeout: float = 300) -> list[dict]:
    """Runs a generator module that writes scenarios to the ndjson file named by the OUT environment variable."""
    out = os.path.join(scratch, f"gen-{module}-{cfg}.ndjson")
    e = dict(env or {})
    e["OUT"] = out
    r = tlc(module, cfg, scratch, env=e, workers=1, timeout=timeout)
    if not r.ok or not os.path.exists(out):
        raise MachineryError(f"scenario generation {module}/{cfg} failed (rc={r.rc}):\n{r.out[-4000:]}")
    with open(out) as f:
        return [json.loads(line) for line in f if line.strip()]

def no_null(x):
    """TLC's Json module has no null: `None` is written as "~"."""
    if x is None: return "~"
    if isinstance(x, dict): return {k: no_null(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [no_null(v) for v in x]
    return x

def culprit(module, cfg, part, r, scratch, env, timeout):
    """The trace of a chunk for which evaluating the specification fails: TLC shows the state, else by bisection."""
    m = re.findall(r"^(?:/\\ )?c = (\d+)$", r.out, re.M)
    lo, hi = 0, len(part)
    def fails(a, b):
        fd, fn = tempfile.mkstemp(suffix=".ndjson", dir=scratch)
        with os.fdopen(fd, "w") as f:
            for t in part[a:b]: f.write(json.dumps(no_null(t)) + "\n")
        try: return not tlc(module, cfg, scratch, env=dict(env, TRACE=fn), timeout=timeout).ok
        finally: os.unlink(fn)
    if m and 0 <= int(m[-1]) - 1 < len(part) and fails(int(m[-1]) - 1, int(m[-1])): return int(m[-1]) - 1
    if not fails(0, 0 + len(part)): return None
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if fails(lo, mid): hi = mid
        elif fails(mid, hi): lo = mid
        else: return None
    return lo

def validate_traces(module: str, cfg: str, traces: list[dict], scratch: str, env: dict | None = None,
                    workers: int = 4, chunk: int = 4000, timeout: float = 800, parallel: int = 2) -> tuple[list[str], int]:
    """
    Checks recorded traces against the specification. Returns one verdict per trace and
    the number of states TLC needed to walk all of them.
    """
    verdicts: list[str | None] = [None] * len(traces)
    total = [0]
    errors: list[str] = []
    jobs = list(range(0, len(traces), chunk))
    lock = threading.Lock()
    def work():
        while True:
            with lock:
                if not jobs or errors:
                    return
                base = jobs.pop(0)
            part = traces[base:base + chunk]
            fn = os.path.join(scratch, f"trace-{module}-{base}.ndjson")
            with open(fn, "w") as f:
                for t in part:
                    f.write(json.dumps(no_null(t)) + "\n")
            e = dict(env or {})
            e["TRACE"] = fn
            try:
                r = tlc(module, cfg, scratch, env=e, workers=workers, timeout=timeout)
            except MachineryError as ex:
                errors.append(str(ex)); return
            got = re.findall(r'<<"V", (\d+), "((?:[^"\\]|\\.)*)">>', r.out)
            for i, v in got:
                k = base + int(i) - 1
                if verdicts[k] is not None and verdicts[k] != v:
                    errors.append(f"conflicting verdicts for trace {k}: {verdicts[k]!r} / {v!r}")
                verdicts[k] = v
            if not r.ok:
                k = culprit(module, cfg, part, r, scratch, e, timeout) if r.rc in (75, 76) or "evaluating" in r.out else None
                if k is not None:
                    # not a value the specification has an opinion on: certainly not one of its behaviours
                    verdicts[base + k] = "not-a-behaviour"
                    for i in range(base, base + len(part)):
                        if verdicts[i] is None: verdicts[i] = "OK"
                    continue
                errors.append(f"trace validation {module}/{cfg} failed (rc={r.rc}), file {fn}:\n{r.out[-5000:]}")
                return
            with lock:
                total[0] += r.distinct
            os.unlink(fn)
    threads = [threading.Thread(target=work) for _ in range(min(parallel, max(1, len(jobs))))]
    for t in threads: t.start()
    for t in threads: t.join()
    if errors:
        raise MachineryError(errors[0])
    missing = [i for i, v in enumerate(verdicts) if v is None]
    if missing:
        raise MachineryError(f"no verdict for {len(missing)} traces, first: {missing[:3]}: {json.dumps(traces[missing[0]])[:2000]}")
    return verdicts, total[0]  # type: ignore

# ---------------------------------------------------------------------------
# Driver pool: executes scenarios against the real code in worker processes
# ---------------------------------------------------------------------------

def driver_env(hashseed: int, extra: dict | None = None) -> dict:
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VERIF_WORKER"))}
    e.update(PYTHONPATH=f"{REPO}/src:{HARNESS}", PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1",
             PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C.UTF-8", LANG="C.UTF-8", TERM="dumb",
             HOME="/root", GIT_CONFIG_NOSYSTEM="1")
    e.update(extra or {})
    return e

PASSWD = """root:x:0:0:root:/root:/bin/bash
daemon:x:1:1:daemon:/usr/sbin:/usr/sbin/nologin
bin:x:2:2:bin:/bin:/usr/sbin/nologin
games:x:5:60:games:/usr/games:/usr/sbin/nologin
web:x:3001:3001:Web Ünser,room 1,,:/srv/web dir:/bin/sh
www:x:3002:3003::/nonexistent:
4242:x:3005:3001:numeric name:/srv/4242:/bin/sh
num:x:4242:4343:named:/srv/num:/bin/sh
nobody:x:65534:65534:nobody:/nonexistent:/usr/sbin/nologin
"""
GROUP = """root:x:0:
daemon:x:1:web
bin:x:2:
adm:x:4:web,daemon,4242
video:x:44:web
games:x:60:
web:x:3001:
site:x:3003:
www:x:3004:games
4343:x:3006:num
numg:x:4343:
empty:x:3010:
big:x:3011:root,daemon,bin,games,web,www,num,nobody,ghost
nogroup:x:65534:
"""
SHADOW = """root:*:19000:0:99999:7:::
daemon:!:19000:0:99999:7:::
bin:*:19000:0:99999:7:::
games::19000:0:99999:7:::
web:$6$abc$defghijklmnop/.:19000:0:99999:7:::
www:!!:19000:0:99999:7:::
4242:!$y$j9T$x:19000:0:99999:7:::
num:x:19000:0:99999:7:::
nobody:*:19000:0:99999:7:::
"""
def nssdb(scratch: str) -> dict:
    """Environment that makes processes see the accounts above (empty if that cannot be arranged here)."""
    d = os.path.join(scratch, "nssdb")
    if not os.path.isdir(d):
        os.makedirs(d)
        for n, c in (("passwd", PASSWD), ("group", GROUP), ("shadow", SHADOW)):
            with open(os.path.join(d, n), "w", encoding="utf-8") as f: f.write(c)
        os.chmod(d, 0o755)
        try:
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", f"{d}/nssdb.so", os.path.join(HARNESS, "nssdb.c")], check=True, capture_output=True)
            env = dict(os.environ, LD_PRELOAD=f"{d}/nssdb.so", NSSDB_DIR=d)
            if subprocess.run(["id", "-Gn", "web"], env=env, capture_output=True).stdout != b"web daemon adm video big\n": raise OSError("no effect")
        except (OSError, subprocess.SubprocessError):
            shutil.rmtree(d); return {}
    return dict(LD_PRELOAD=f"{d}/nssdb.so", NSSDB_DIR=d)

def run_driver(driver: str, scenarios: list[dict], scratch: str, seed: int, workers: int = 8,
               case_timeout: float = 40, extra_env: dict | None = None, retry: bool = True, deadline: float | None = None) -> list[dict | None]:
    """
    Executes all scenarios with the driver module `harness/<driver>.py` (which defines
    `run_case(scn, scratchdir) -> dict`), and returns one trace per scenario. A case in
    which the worker dies or makes no progress results in a trace with outcome crash/timeout.
    After several of these, or after the deadline, the remaining scenarios are not executed (None).
    """
    stalls = [0]
    n = len(scenarios)
    results: list[dict | None] = [None] * n
    nworkers = max(1, min(workers, (n + 3) // 4))
    lock = threading.Lock()

    def one_worker(indices: list[int], hashseed: int, wid: str):
        todo = list(indices)
        attempt = 0
        while todo and not (retry and stalls[0] >= 4):
            attempt += 1
            wd = os.path.join(scratch, f"w-{wid}-{attempt}")
            os.makedirs(wd)
            os.chmod(wd, 0o755)
            inf, outf, errf = (os.path.join(wd, x) for x in ("in.ndjson", "out.ndjson", "stderr"))
            with open(inf, "w") as f:
                for i in todo:
                    f.write(json.dumps(dict(i=i, scn=scenarios[i])) + "\n")
            open(outf, "w").close()
            cases = os.path.join(wd, "cases")
            os.makedirs(cases)
            os.chmod(cases, 0o755)
            with open(errf, "wb") as ef:
                proc = subprocess.Popen([PYTHON, os.path.join(HARNESS, "worker.py"), driver, inf, outf, cases], cwd=cases,
                                        env=driver_env(hashseed, extra_env), stdin=subprocess.DEVNULL, stdout=ef, stderr=subprocess.STDOUT, start_new_session=True)
            last_size, last_t, killed, stopped = -1, time.time(), False, False
            while True:
                rc = proc.poll()
                size = os.path.getsize(outf)
                if size != last_size:
                    last_size, last_t = size, time.time()
                if rc is not None:
                    break
                if deadline is not None and time.time() > deadline or retry and stalls[0] >= 4:
                    try: os.killpg(proc.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    proc.wait()
                    stopped = True
                    break
                if time.time() - last_t > case_timeout:
                    killed = True
                    try: os.killpg(proc.pid, signal.SIGKILL)
                    except ProcessLookupError: pass
                    proc.wait()
                    break
                time.sleep(0.02)
            try: os.killpg(proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError): pass
            begun = None
            done = set()
            with open(outf) as f:
                for line in f:
                    try: rec = json.loads(line)
                    except ValueError: continue
                    if "begin" in rec: begun = rec["begin"]
                    else:
                        results[rec["i"]] = rec["trace"]
                        done.add(rec["i"])
            remaining = [i for i in todo if i not in done]
            if stopped:
                shutil.rmtree(wd, ignore_errors=True)
                return
            if remaining:
                if killed:
                    with lock: stalls[0] += 1
                victim = begun if begun in remaining else remaining[0]
                with open(errf, "rb") as f:
                    tail = f.read()[-3000:].decode("utf-8", "replace")
                results[victim] = dict(outcome="timeout" if killed else "crash", detail=tail)
                remaining = [i for i in remaining if i != victim]
            todo = remaining
            shutil.rmtree(wd, ignore_errors=True)
            if attempt > 60:
                # Something is fundamentally broken: everything left counts as crashed.
                for i in todo:
                    results[i] = dict(outcome="crash", detail="too many worker crashes")
                return

    threads = []
    for w in range(nworkers):
        idx = list(range(w, n, nworkers))
        t = threading.Thread(target=one_worker, args=(idx, (seed * 131 + w * 17) % 4294967295, f"{driver}{w}"))
        t.start()
        threads.append(t)
    for t in threads: t.join()

    # Timeouts and crashes are confirmed once in isolation, so that a stall of the machine isn't blamed on the code.
    if retry:
        suspicious = [i for i in range(n) if results[i] is not None and results[i].get("outcome") in ("timeout", "crash")]
        confirmed = False
        for i in suspicious[:6]:
            sub = run_driver(driver, [scenarios[i]], os.path.join(scratch), seed + 7919 + i, workers=1, case_timeout=case_timeout * 1.5, extra_env=extra_env, retry=False)
            results[i] = sub[0]
            if sub[0].get("outcome") in ("timeout", "crash"):
                confirmed = True
                if sub[0]["outcome"] == "timeout": break
        todo = [i for i in range(n) if results[i] is None]
        if stalls[0] >= 4 and not confirmed and todo and not (deadline is not None and time.time() > deadline):
            for i, t in zip(todo, run_driver(driver, [scenarios[i] for i in todo], scratch, seed + 1, workers, case_timeout, extra_env, False, deadline)): results[i] = t
    return results  # type: ignore

# ---------------------------------------------------------------------------
# Known findings
# ---------------------------------------------------------------------------

def known_findings() -> list[dict]:
    """Entries of KNOWN_FINDINGS.txt:  `finding: property=<id> key=<key> <text>` (fixed: lines suppress nothing)."""
    fn = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    res = []
    if os.path.exists(fn):
        with open(fn) as f:
            for line in f:
                m = re.match(r"finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
                if m:
                    res.append(dict(property=m.group(1), key=m.group(2), text=m.group(3).strip()))
    return res
