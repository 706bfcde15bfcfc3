"""Runs `fora INVENTORY SCRIPT` in a subprocess and records connections and script executions (C05)."""
import json, os, subprocess, sys
import drv_tunnel, vhost

def run_case(scn, d):
    vhost.setup_args()
    d = os.path.realpath(d)
    if "noident" in scn["fate"].values():
        _, ack, _ = drv_tunnel.record_session(d, [], "base")
        with open(f"{d}/ack", "wb") as f: f.write(ack)
    with open(f"{d}/scn.json", "w") as f: json.dump(scn, f)
    open(f"{d}/events", "w").close(); open(f"{d}/pids", "w").close()
    os.mkdir(f"{d}/w")
    with open(f"{d}/w/deploy.py", "w") as f: f.write("import vmain\nvmain.script_body()\n")
    if scn["inv"] == "url": inv = "rec:" + scn["hosts"][0]
    else:
        inv = f"{d}/w/inventory.py"
        with open(inv, "w") as f:
            f.write("import fora.inventory_wrapper\nhosts = [" + ", ".join(f"dict(name={h!r}, url={'rec:' + h!r})" for h in scn["hosts"]) + "]\n")
    argv = ([] if scn["sel"] == [] else [scn["flag"], ",".join(scn["sel"])]) + scn["opts"] + [inv, f"{d}/w/deploy.py" if scn["abs"] else os.path.relpath(f"{d}/w/deploy.py")]
    env = dict(os.environ, VMAIN_DIR=d)
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vmain.py")] + argv, env=env, stdin=subprocess.DEVNULL, capture_output=True)
    with open(f"{d}/events") as f: events = [json.loads(l) for l in f]
    with open(f"{d}/pids") as f: left = sum(0 if drv_tunnel.wait_dead(int(x), 5) else 1 for x in f.read().split())
    return dict(outcome="ok", events=events, rc=p.returncode, left=left, err=p.stderr.decode("utf-8", "replace")[-600:])
