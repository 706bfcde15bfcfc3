"""Drives account, package and service operations against a simulated host (C18, C19, C20)."""
import copy, json
import vhost

def result(fn):
    import subprocess
    try: r = fn()
    except SystemExit: raise
    except BaseException as e: return dict(o="raise", exc=type(e).__name__, success=False, changed=False, initial="", final="", msg=bool(str(e)), text=str(e)[:200])
    enc = lambda x: json.dumps(x, sort_keys=True, default=str)
    return dict(o="ok", exc="~", success=bool(r.success), changed=bool(r.changed), initial=enc(r.initial), final=enc(r.final), msg=bool(r.failure_message), text=str(r.failure_message)[:200])

def acc_state(s):
    return dict(users={n: dict(uid=str(v["uid"]), group=v["group"], groups=v["groups"], comment=v["comment"], home=v["home"], shell=v["shell"], hash=v["hash"], system=v["system"]) for n, v in s["users"].items()},
                groups={n: dict(gid=str(v["gid"]), system=v["system"]) for n, v in s["groups"].items()})
def acc_extra(s, before): return [n for n, v in s["users"].items() if v["made_home"] and not before["users"].get(n, {}).get("made_home")] + s["homes_removed"]
def acc_op(o, kw):
    from fora.operations import system
    if o["kind"] == "user":
        g = lambda k: "~" if kw.get(k) is None else str(kw[k])
        req = dict(kind="user", name=kw["user"], present=kw.get("present", True), uid=g("uid"), group=g("group"), hasgroups=kw.get("groups") is not None, groups=kw.get("groups") or [], append=kw.get("append_groups", False),
                   comment=g("comment"), home=g("home"), shell=g("shell"), hash=g("password_hash"), system=kw.get("system", False),
                   valid=not any(":" in str(kw.get(k, "")) or "\n" in str(kw.get(k, "")) for k in ("comment", "home", "shell", "password_hash")) and (kw.get("home") is None or kw["home"].startswith("/")))
        return req, lambda **c: system.user(**vhost.spoken(kw), **c)
    req = dict(kind="group", name=kw["group"], present=kw.get("present", True), gid="~" if kw.get("gid") is None else str(kw["gid"]), system=kw.get("system", False))
    return req, lambda **c: system.group(**vhost.spoken(kw), **c)
def acc_ext(s, x):
    u, g = s["users"], s["groups"]
    if x["act"] == "mod" and x["user"] in u: u[x["user"]].update(x["set"])
    elif x["act"] == "del": u.pop(x["user"], None)
    for v in u.values():
        if v["group"] not in g: v["group"] = "root"
        v["groups"] = sorted(n for n in v["groups"] if n in g)

def pkg_state(s): return dict(installed=s["installed"], world=s["world"])
def pkg_op(o, kw):
    from fora.operations import apt, pacman, portage, system
    fn = dict(apt=apt.package, pacman=pacman.package, portage=portage.package, system=system.package)[o["via"]]
    ps = kw["packages"]
    req = dict(via=o["via"], packages=ps if isinstance(ps, list) else [], islist=isinstance(ps, list), present=kw.get("present", True), oneshot=kw.get("oneshot", False), opts=kw.get("opts") or [])
    return req, lambda **c: fn(**vhost.spoken(kw), **c)

def svc_state(s): return dict(units={sc: {n: dict(active=v["active"], enabled=v["enabled"]) for n, v in us.items()} for sc, us in s["units"].items()})
def svc_op(o, kw):
    from fora.operations import systemd, system
    if o["via"] == "daemon_reload":
        return dict(via="daemon_reload", unit="", state="~", enabled="~", scope="user" if kw.get("user_mode") else "system"), lambda **c: systemd.daemon_reload(**vhost.spoken(kw), **c)
    fn = dict(systemd=systemd.service, system=system.service)[o["via"]]
    e = kw.get("enabled")
    req = dict(via=o["via"], unit=kw["service"], state="~" if kw.get("state") is None else kw["state"], enabled="~" if e is None else "yes" if e else "no", scope="user" if kw.get("user_mode") else "system")
    return req, lambda **c: fn(**vhost.spoken(kw), **c)

KINDS = dict(acc=(acc_state, acc_op, acc_extra), pkg=(pkg_state, pkg_op, lambda s, b: []), svc=(svc_state, svc_op, lambda s, b: []))

def run_case(scn, d):
    import fora, fora.connection
    import simhost
    vhost.setup_args(**scn.get("args", {}))
    state_of, op_of, extra_of = KINDS[scn["kind"]]
    sim = simhost.Sim(copy.deepcopy(scn["init"]), d)
    class C(simhost.SimConnector): pass
    C.sim = sim
    host = vhost.new_host("local:sim", connector=C)
    events = []
    init = copy.deepcopy(state_of(sim.s))
    with vhost.quiet(), fora.connection.open_connection(host):
        for i, st in enumerate(scn["steps"]):
            if st["kind"] == "ext":
                sim.begin(); acc_ext(sim.s, st["x"])
                events.append(dict(kind="ext", post=copy.deepcopy(state_of(sim.s)))); continue
            req, call = op_of(st["o"], st["o"]["kw"])
            fora.args.dry = st["kind"] == "dry"
            before = sim.snapshot()
            sim.begin(st.get("fault") if st["kind"] == "fault" else None)
            ck = {} if st["check"] is None else dict(check=st["check"])
            res = result(lambda: call(**ck))
            fora.args.dry = False
            events.append(dict(kind=st["kind"], id=st.get("id", i), o=req, check=st["check"] is not False, again=st.get("again", False), res=res, hit=sim.hit, mods=sim.mods, modcalls=sim.mod_log, acts=sim.acts,
                               calls=sim.calls, commands=sim.s["commands"], extra=extra_of(sim.s, before), post=copy.deepcopy(state_of(sim.s))))
    return dict(outcome="ok", init=init, events=events, env={k: v for k, v in scn["init"].items() if k in ("avail", "confirm", "commands", "status", "units")})
