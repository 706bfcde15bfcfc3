"""Drives user defined operations through the operation decorator (C15, C13)."""
import subprocess
import vhost, simhost

def run_case(scn, d):
    import fora, fora.connection
    from fora.operations.api import Operation, OperationError, OperationResult, operation
    vhost.setup_args(**scn["args"])
    sim = simhost.Sim(dict(commands=[], users={}, groups={}), d)
    class C(simhost.SimConnector): pass
    C.sim = sim
    log = []
    def record(fn):
        try: r = fn()
        except BaseException as e:
            x = "op" if isinstance(e, OperationError) else "cpe" if isinstance(e, subprocess.CalledProcessError) else "exc"
            log.append(dict(k="raise", exc=x, changed=False, msg=str(e))); raise
        log.append(dict(k="ok" if r.success else "failed", exc="~", changed=bool(r.changed), msg="~" if r.failure_message is None else r.failure_message))
        return r
    @operation("tree")
    def tree(t, name=None, check=True, op=Operation.internal_use_only):
        b = t["body"]
        if b == "nested":
            op.nested(True); op.desc("nested")
            for i, k in enumerate(t["kids"]):
                r = call(k)
                if not r.success and t["onfail"] == "propagate": return op.failure(r.failure_message)
                op.add_nested_result(f"k{i}", r)
            return op.success()
        op.desc(b)
        if b == "success":
            op.initial_state(x=1, y=None); op.final_state(x=2 if t["changed"] else 1, y=None)
            return op.success()
        if b == "failure": return op.failure("failure")
        if b == "latefail":
            op.initial_state(x=1); op.final_state(x=2)
            return op.failure("latefail")
        if b == "operror": raise OperationError("operror")
        if b == "mutefailure": return op.failure("")
        if b == "muteoperror": raise OperationError("")
        if b == "none": return None
        if b == "cpe": raise subprocess.CalledProcessError(3, ["cmd"], output=b"o" if t["changed"] else None, stderr=None)
        if b == "exc": raise ValueError("bad value")
        if b in ("onlyinitial", "onlyfinal"):
            (op.initial_state if b == "onlyinitial" else op.final_state)(x=1)
            return op.success()
        if b == "nostate": return op.success()
        if b == "twice":
            op.initial_state(x=1); op.initial_state(x=1)
            return op.success()
        raise AssertionError(b)
    def call(t):
        how = t["how"]
        pos, kw = [t], {}
        if how == "pos": pos += [None, t["check"]]
        elif how == "kw": kw["check"] = t["check"]
        elif how == "named": kw.update(name="my name", check=t["check"])
        elif how == "posname": pos += ["my name"]; kw["check"] = t["check"]
        return record(lambda: tree(*pos, **kw))
    probes = {}
    @operation("probe")
    def probe(p, name=None, check=True, op=Operation.internal_use_only):
        op.desc("probe")
        first, second = (op.initial_state, op.final_state) if p["order"] else (op.final_state, op.initial_state)
        a, b = ("initial", "final") if p["order"] else ("final", "initial")
        first(**{k: dec(v) for k, v in p[a]}); second(**{k: dec(v) for k, v in p[b]})
        probes.update(unchanged=op.unchanged(), unchanged_ignore=op.unchanged(ignore_none=True), keys=[[k, op.changed(k)] for k, _ in p["initial"]])
        return op.success()
    host = vhost.new_host("local:sim", connector=C)
    events = []
    clean = lambda t: dict(body=t["body"], check=t["check"], changed=t["changed"] and t["body"] == "success", onfail=t["onfail"], kids=[clean(k) for k in t["kids"]])
    with vhost.quiet(), fora.connection.open_connection(host):
        for s in scn["steps"]:
            if s["kind"] == "probe":
                probes.clear()
                r = probe(s["p"])
                events.append(dict(kind="probe", initial=s["p"]["initial"], final=s["p"]["final"], changed=bool(r.changed), **probes))
            else:
                log.clear()
                h = fora.host
                if s["t"]["body"] == "nohost": fora.host = None
                try: call(s["t"])
                except Exception: pass
                finally: fora.host = h
                events.append(dict(kind="call", t=clean(s["t"]), log=list(log)))
    return dict(outcome="ok", events=events)

def dec(v): return {"~": None, "int1": 1, "int0": 0, "true": True, "false": False, "empty": "", "list": ["a"], "bytes": b"x", "nolist": []}.get(v, v)
