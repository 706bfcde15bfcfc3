"""Runs the fora command line program with a recording connector (subprocess of drv_main)."""
import json, os, sys
D = os.environ["VMAIN_DIR"]
SCN = json.load(open(os.path.join(D, "scn.json")))
def log(ev, host):
    with open(os.path.join(D, "events"), "a") as f: f.write(json.dumps(dict(ev=ev, host=host)) + "\n")

import fora, fora.main
from fora.connectors.connector import connector
from fora.connectors.local import LocalConnector

@connector(schema="rec")
class RecConnector(LocalConnector):
    """A local connection that records when it is opened and closed."""
    def __init__(self, url, host):
        super().__init__(url, host)
        self.hname, self.opened = host.name, False
    def command(self):
        import shlex
        how = SCN["how"].get(self.hname, "")
        f = SCN["fate"].get(self.hname, "ok")
        real = " ".join(shlex.quote(x) for x in super().command())
        pre = f"echo $$ >> {D}/pids; "
        if f == "noconnect":
            return {"exit": ["sh", "-c", pre + "exit 7"], "closed": ["sh", "-c", pre + "exec >&-; exec cat >/dev/null"], "nocmd": ["/nonexistent/cmd"]}[how]
        if f == "noident": return ["sh", "-c", pre + f"cat {D}/ack; exec >&-; exec cat >/dev/null"]
        return ["sh", "-c", pre + f"exec {real}"]
    def open(self):
        try: super().open()
        except BaseException:
            log("fail", self.hname); raise
        self.opened = True
        log("open", self.hname)
    def close(self):
        super().close()
        if self.opened: log("close", self.hname); self.opened = False

def script_body():
    """Called from the generated script."""
    h = fora.host.name
    log("script", h)
    f, how = SCN["fate"][h], SCN["how"].get(h, "")
    fora.host.connection.run(["true"])
    if f == "script":
        if how == "exit": sys.exit(5)
        if how == "interrupt": raise KeyboardInterrupt()
        if how == "cmd": fora.host.connection.run(["false"])
        if how == "op":
            from fora.operations import files
            files.link("/nonexistent/x/y", target="")
        raise RuntimeError("script failed")
    if f == "killed":
        import signal
        with open(os.path.join(D, "pids")) as fh: pid = int(fh.read().split()[-1])
        os.kill(pid, signal.SIGKILL)
        fora.host.connection.run(["true"])

if __name__ == "__main__":
    sys.modules["vmain"] = sys.modules["__main__"]
    fora.main.main(sys.argv[1:])
