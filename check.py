#!/usr/bin/env python3
"""Entry point: check.py <PROPERTY-ID> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, importlib, json, os, shutil, sys, threading, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import common
from common import MachineryError

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--max", type=int, default=0, help="only run the first N scenarios (debugging)")
    ap.add_argument("--no-model", action="store_true", help="skip the model checking run (debugging)")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    registry = importlib.import_module("registry")
    chk = registry.get(a.id)
    scratch = common.mkscratch(f"verif-{a.id}-")
    start = time.time()
    try:
        return run(chk, a, scratch, start)
    except MachineryError as e:
        print(f"MACHINERY-ERROR property={a.id}: {e}", flush=True)
        return 2
    except Exception:
        print(f"MACHINERY-ERROR property={a.id}:\n{traceback.format_exc()}", flush=True)
        return 2
    finally:
        if not a.keep:
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("scratch:", scratch)

def run(chk, a, scratch, start):
    tier, seed = a.tier, a.seed
    model_res, model_err = [], []
    def bg():
        try: model_res.extend(common.model_check(chk.models(tier), scratch))
        except MachineryError as e: model_err.append(e)
    mt = None
    if not a.replay and not a.no_model:
        mt = threading.Thread(target=bg); mt.start()

    failures = []      # (group, scenario, trace, verdict)
    known_hit = {}
    n_traces = n_trace_states = 0
    samples, classes = [], set()
    groups = chk.groups(tier, seed, scratch)
    if a.replay:
        with open(a.replay) as f: rp = json.load(f)
        groups = [g for g in groups if g["name"] == rp["group"]]
        for g in groups: g["scenarios"] = [rp["scenario"]]
    known = {k["key"]: k for k in common.known_findings() if k["property"] == chk.id}
    gstats = []
    not_run = 0
    for g in groups:
        scns = g["scenarios"]
        if a.max: scns = scns[:a.max]
        t0 = time.time()
        traces = common.run_driver(g["driver"], scns, scratch, seed, workers=g.get("workers", 8), case_timeout=g.get("case_timeout", 40), extra_env=g.get("env"),
                                   deadline=start + 600 if tier == "quick" else None)
        ran = [i for i, t in enumerate(traces) if t is not None]
        if len(ran) < len(scns): not_run += len(scns) - len(ran)
        scns, traces = [scns[i] for i in ran], [traces[i] for i in ran]
        t1 = time.time()
        # The verdict on what was recorded is the specification's alone.
        cases = [dict(scn=s, tr=t) for s, t in zip(scns, traces)]
        bad = [i for i, t in enumerate(traces) if t.get("outcome") in ("crash", "timeout") and "events" not in t]
        good = [i for i in range(len(cases)) if i not in set(bad)]
        env = dict(PROP=chk.id)
        verdicts = {}
        if good:
            vs, ns = common.validate_traces(g["spec"], g.get("cfg", g["spec"] + ".cfg"), [cases[i] for i in good], scratch, env=env, chunk=g.get("chunk", 4000))
            n_trace_states += ns
            for i, v in zip(good, vs): verdicts[i] = v
        for i in bad: verdicts[i] = f"no-conforming-behaviour({traces[i]['outcome']})"
        t2 = time.time()
        n_traces += len(cases)
        gstats.append(dict(group=g["name"], traces=len(cases), run_s=round(t1 - t0, 1), validate_s=round(t2 - t1, 1)))
        for s in scns[:1]: samples.append(dict(group=g["name"], scenario=s, verdict=verdicts.get(0)))
        for i, s in enumerate(scns): classes.add(g["name"] + json.dumps(s, sort_keys=True))
        for i in range(len(cases)):
            if verdicts[i] != "OK":
                key = chk.finding_key(g["name"], scns[i], traces[i], verdicts[i])
                if key in known:
                    known_hit.setdefault(key, 0)
                    known_hit[key] += 1
                else:
                    failures.append((g["name"], scns[i], traces[i], verdicts[i]))
    if mt: mt.join()
    if model_err: raise model_err[0]
    for k in known_hit:
        print(f"KNOWN-FINDING: property={chk.id} {k}: {known[k]['text']} ({known_hit[k]} cases)")
    wall = time.time() - start
    cov = dict(states=sum(m["distinct"] for m in model_res) , transitions=sum(m["states"] for m in model_res),
               traces_validated_against_impl=n_traces, trace_states=n_trace_states, distinct_scenarios=len(classes), scenarios_not_run=not_run,
               models=model_res, groups=gstats, samples=samples[:6])
    ev = dict(property=chk.id, tier=tier, seed=seed, level=chk.level, coverage=cov, assumptions=chk.assumptions, wall_s=round(wall, 2), violations=len(failures))
    if not a.replay:
        os.makedirs(os.path.join(common.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(common.VERIF, "evidence", f"{chk.id}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if failures:
        rd = os.path.join(common.VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        hist = {}
        for f in failures: hist[(f[0], f[3])] = hist.get((f[0], f[3]), 0) + 1
        for (gn, v), n in sorted(hist.items(), key=lambda kv: -kv[1])[:12]:
            print(f"  {n:5d} x [{gn}] {v}")
        failures.sort(key=lambda f: len(json.dumps(f[1])))
        gname, scn, tr, v = failures[0]
        path = os.path.join(rd, f"{chk.id}.json")
        with open(path, "w") as f:
            json.dump(dict(property=chk.id, group=gname, verdict=v, scenario=scn, trace=tr), f, indent=1)
        seen = {v}
        for g2, s2, t2, v2 in failures:     # one more example per kind of failure
            if v2 in seen or len(seen) > 8: continue
            with open(os.path.join(rd, f"{chk.id}.{len(seen)}.json"), "w") as f: json.dump(dict(property=chk.id, group=g2, verdict=v2, scenario=s2, trace=t2), f, indent=1)
            seen.add(v2)
        print(f"  first failing case: [{gname}] verdict={v}")
        if a.v: print(json.dumps(dict(scn=scn, tr=tr), indent=1)[:6000])
        print(f"VIOLATION property={chk.id} replay={path}", flush=True)
        return 1
    print(f"OK property={chk.id} tier={tier} traces={n_traces} model_states={cov['states']} trace_states={n_trace_states} wall={wall:.1f}s {gstats}")
    return 0

if __name__ == "__main__":
    sys.exit(main())
