"""Which specification, scenarios and driver decide each property."""
import random
import common

class Check:
    level = "model_checking"
    assumptions = ["The specification in spec/ states the property; behaviours outside the generated scenarios are not executed against the code.",
                   "TLC, CPython and the host's coreutils behave as documented."]
    def __init__(self, id, models_quick, models_thorough, groups, technique, note, finding_key=None):
        self.id, self._mq, self._mt, self._groups, self.technique, self.note = id, models_quick, models_thorough, groups, technique, note
        self._fk = finding_key
    def models(self, tier): return self._mq if tier == "quick" else self._mt
    def groups(self, tier, seed, scratch): return self._groups(tier, random.Random(f"{seed}-{self.id}"), scratch)
    def finding_key(self, group, scn, trace, verdict): return self._fk(group, scn, trace, verdict) if self._fk else None

CHECKS = {}
def get(id):
    if id not in CHECKS: raise SystemExit(f"unknown property {id}")
    return CHECKS[id]
def add(*a, **k):
    c = Check(*a, **k)
    CHECKS[c.id] = c

# --- inventory --------------------------------------------------------------
import gen_inventory as gi
INVQ, INVT = [("MCInventory", "MCInventoryQuick.cfg")], [("MCInventory", "MCInventoryFull.cfg")]
def _inv(fn):
    def groups(tier, rng, scratch):
        return [dict(name=n, driver="drv_inventory", spec="InventoryTrace", scenarios=s) for n, s in fn(tier, rng)]
    return groups
def q(tier, a, b): return a if tier == "quick" else b
add("C01", INVQ, INVT, _inv(lambda t, r: [("order", gi.order_cases(r, q(t, 4000, 60000)))]),
    "TLA+ model (TLC) of inventory loading + trace validation of real loads", "")
add("C02", INVQ, INVT, _inv(lambda t, r: [("vars", gi.var_cases(r, q(t, 4000, 60000)))]),
    "TLA+ model (TLC) of variable inheritance + trace validation of real loads", "")
add("C03", INVQ, INVT, _inv(lambda t, r: [("small", gi.small_exhaustive(q(t, 1500, None), r)), ("conflict", gi.conflict_cases(r, q(t, 3000, 50000)))]),
    "TLA+ model (TLC) of conflict detection + trace validation of real loads", "")
add("C04", INVQ, INVT, _inv(lambda t, r: [("invalid", gi.invalid_cases(r, q(t, 4000, 60000)))]),
    "TLA+ model (TLC) of declaration validity + trace validation of real loads", "")
add("C25", INVQ, INVT, lambda t, r, scratch: [dict(name="inspect", driver="drv_inspect", spec="InspectTrace", scenarios=gi.inspect_cases(r, q(t, 2500, 30000)))],
    "TLA+ model (TLC) of variable inheritance and origins + validation of what the inspection prints", "")

# --- tunnel -------------------------------------------------------------------
import gen_scaf as gsc
import gen_tunnel as gt
TUNQ, TUNT = [("Tunnel", "MCTunnelQuick.cfg")], [("Tunnel", "MCTunnelFull.cfg")]
def _g(driver, spec, fn, **kw):
    def groups(tier, rng, scratch):
        k = dict(kw)
        if k.pop("nss", False): k["env"] = dict(k.get("env") or {}, **common.nssdb(scratch))
        return [dict(dict(name=n, driver=driver, spec=spec, scenarios=s), **k) for n, s in fn(tier, rng)]
    return groups
def _tun(fn, **kw): return _g("drv_tunnel", "TunnelTrace", fn, **kw)
add("C06", TUNQ, TUNT, _tun(lambda t, r: [("seq", gt.seq_cases(r, q(t, 1200, 12000)))], nss=True),
    "TLA+ model (TLC) of the request/response protocol + trace validation of real sessions", "")
add("C07", TUNQ, TUNT, _tun(lambda t, r: [("cutresp", gt.cutresp_cases(r, t)), ("cutreq", gt.cutreq_cases(r, t))], case_timeout=120, nss=True),
    "TLA+ model (TLC) of the byte stream with a cut at every position + replay of every cut against the real peers", "")
add("C09", TUNQ, TUNT, _tun(lambda t, r: [("life", gt.life_cases(r, q(t, 150, 3000)))], case_timeout=50),
    "TLA+ model (TLC) of the connection life cycle + trace validation of real connections", "")

# --- remote commands ----------------------------------------------------------
import gen_exec as ge
EXE = [("Exec", "MCExec.cfg")]
add("C08", EXE, EXE, _g("drv_exec", "ExecTrace", lambda t, r: [("exec", ge.exec_cases(r, q(t, 800, 9000)))], nss=True),
    "TLA+ model (TLC) of settings resolution and privilege change + trace validation of real commands", "")

# --- scripts --------------------------------------------------------------------
import gen_script as gs
SCRQ, SCRT = [("Script", "MCScriptQuick.cfg")], [("Script", "MCScriptFull.cfg")]
for _id, _w in (("C10", "remote defaults"), ("C11", "script invocation")):
    add(_id, SCRQ, SCRT, _g("drv_script", "ScriptTrace", lambda t, r: [("programs", gs.programs(r, q(t, 1200, 15000)))]),
        f"TLA+ abstract machine (TLC) for {_w} + trace validation of generated programs run by the real code", "")

# --- command line ---------------------------------------------------------------
import gen_main as gm
add("C05", [("Main", "MCMain.cfg")], [("Main", "MCMain.cfg")], _g("drv_main", "MainTrace", lambda t, r: [("runs", gm.main_cases(r, q(t, 600, 6000)))]),
    "TLA+ model (TLC) of a whole run + trace validation of real command line invocations", "")

# --- file operations --------------------------------------------------------------
import gen_files as gf
FILQ, FILT = [("FileOps", "MCFileOpsQuick.cfg")], [("FileOps", "MCFileOps.cfg")]
def _fil(fn): return _g("drv_files", "FileTrace", fn, chunk=150)
import gen_api as ga, gen_sys as gy, gen_git as gg
def _cat(*fns): return lambda tier, rng, scratch: [g for f in fns for g in f(tier, rng, scratch)]
def _api(t, r): return [("api", ga.api_cases(r, q(t, 800, 15000)))]
APIQ, APIT = [("Api", "MCApiQuick.cfg")], [("Api", "MCApiFull.cfg")]
DRY = ("dry", "dry", "real")
add("C12", FILQ, FILT, _fil(lambda t, r: [("state", gf.state_cases(r, q(t, 600, 9000)))]),
    "TLA+ model (TLC) of file operations as request sequences + trace validation of real operations", "")
add("C13", FILQ + APIQ, FILT + APIT, _cat(_fil(lambda t, r: [("repeat", gf.state_cases(r, q(t, 600, 9000)))]), _g("drv_api", "ApiTrace", _api)),
    "TLA+ model (TLC) of file operations (truthfulness, convergence) + trace validation of real operations", "")
add("C14", FILQ, FILT, _cat(_fil(lambda t, r: [("dry", gf.dry_cases(r, q(t, 450, 8000)))]),
                            _g("drv_files", "LineTrace", lambda t, r: [("dry-lines", gf.line_cases(r, q(t, 150, 4000), kinds=DRY))], chunk=400),
                            _g("drv_files", "UpDirTrace", lambda t, r: [("dry-uploads", gf.updir_cases(r, q(t, 150, 3000), kinds=DRY))], chunk=300),
                            _g("drv_git", "GitTrace", lambda t, r: [("dry-repos", gg.git_cases(r, q(t, 80, 1500), dry=True)), ("dry-submodules", gg.submodule_cases(r, q(t, 40, 800), dry=True))]),
                            _g("drv_sys", "AccTrace", lambda t, r: [("dry-accounts", gy.acc_cases(r, q(t, 400, 10000), kinds=DRY))], chunk=800),
                            _g("drv_sys", "PkgTrace", lambda t, r: [("dry-packages", gy.pkg_cases(r, q(t, 300, 8000), kinds=DRY))], chunk=800),
                            _g("drv_sys", "SvcTrace", lambda t, r: [("dry-services", gy.svc_cases(r, q(t, 400, 10000), kinds=DRY))], chunk=800)),
    "TLA+ model (TLC) of dry runs + trace validation of real dry/real pairs", "")
add("C15", FILQ + APIQ, FILT + APIT, _cat(_fil(lambda t, r: [("bad", gf.bad_cases(r, q(t, 600, 9000)))]), _g("drv_api", "ApiTrace", _api)),
    "TLA+ model (TLC) of failing operations + trace validation of real operations", "")
add("C16", FILQ, FILT, _fil(lambda t, r: [("family", gf.fault_family(r, q(t, 500, None))), ("faults", gf.fault_cases(r, q(t, 700, 9000)))]),
    "TLA+ model (TLC) with a fault at every request + fault injection into the real operations, traces validated", "")

LINQ, LINT = [("LineOps", "MCLineOpsQuick.cfg")], [("LineOps", "MCLineOps.cfg")]
add("C17", LINQ, LINT, _g("drv_files", "LineTrace", lambda t, r: [("lines", gf.line_cases(r, q(t, 1200, 10000)))], chunk=400),
    "TLA+ model (TLC) of line editing + trace validation of real edits", "")

UPD = [("UpDir", "MCUpDir.cfg")]
add("C22", UPD, UPD, _g("drv_files", "UpDirTrace", lambda t, r: [("uploads", gf.updir_cases(r, q(t, 700, 8000)))], chunk=300),
    "TLA+ model (TLC) of recursive uploads + trace validation of real uploads", "")

# --- accounts, packages, services --------------------------------------------------
import gen_sys as gy
ACCQ, ACCT = [("Accounts", "MCAccountsQuick.cfg")], [("Accounts", "MCAccountsFull.cfg")]
add("C18", ACCQ, ACCT, _g("drv_sys", "AccTrace", lambda t, r: [("accounts", gy.acc_cases(r, q(t, 1500, 30000)))], chunk=800),
    "TLA+ model (TLC) of account management as tool invocations + trace validation of real operations against simulated account tools", "")

add("C19", [("Packages", "MCPackages.cfg")], [("Packages", "MCPackages.cfg")], _g("drv_sys", "PkgTrace", lambda t, r: [("packages", gy.pkg_cases(r, q(t, 1200, 25000)))], chunk=800),
    "TLA+ model (TLC) of package operations + trace validation of real operations against simulated package managers", "")
add("C20", [("Services", "MCServices.cfg")], [("Services", "MCServices.cfg")], _g("drv_sys", "SvcTrace", lambda t, r: [("services", gy.svc_cases(r, q(t, 2000, 30000)))], chunk=800),
    "TLA+ model (TLC) of service operations + trace validation of real operations against a simulated service manager", "")

# --- host urls ----------------------------------------------------------------------
import gen_url as gu
URL = [("Url", "MCUrl.cfg")]
add("C24", URL, URL, _g("drv_url", "UrlTrace", lambda t, r: [("urls", gu.url_cases(r, q(t, 900, 9000)))]),
    "TLA+ model (TLC) of host references + trace validation of hosts declared and contacted through a recording ssh client", "")

# --- variables and templates ----------------------------------------------------------
import gen_vars as gv
add("C21", [("Vars", "MCVarsQuick.cfg")], [("Vars", "MCVarsFull.cfg")], _g("drv_vars", "VarTrace", lambda t, r: [("lookups", gv.var_cases(r, q(t, 700, 12000)))]),
    "TLA+ model (TLC) of name resolution across nested scripts + trace validation of real lookups and templates", "")

# --- repositories -----------------------------------------------------------------------
import gen_git as gg
add("C23", [("Git", "MCGit.cfg")], [("Git", "MCGitFull.cfg")], _g("drv_git", "GitTrace", lambda t, r: [("repos", gg.git_cases(r, q(t, 420, 4000))), ("diverged", gg.diverged_cases(r, q(t, 80, 1500))), ("submodules", gg.submodule_cases(r, q(t, 150, 2500)))]),
    "TLA+ model (TLC) of repositories, references and checkouts + trace validation of real operations on real repositories", "")

NOT_APPLICABLE = {}
DEFAULT_NOTE = ("TLC exhaustively checks the specification's own invariants for small constants; the real code is executed on generated scenarios "
                "(seeded by VERIF_SEED) and every recorded trace must be a behaviour of the specification. Assurance against the code is bounded by the scenarios executed.")

# --- reports ---------------------------------------------------------------------
import gen_report as gp
import gen_err as gee
import gen_cust as gcu
add("C29", [("Custom", "MCCustom.cfg")], [("Custom", "MCCustom.cfg")], _g("drv_cust", "CustTrace", lambda t, r: [("custom", gcu.cust_cases(r, q(t, 1500, 20000)))]),
    "TLA+ model (TLC) of loading inventories with replaced functions + trace validation of real loads and connections", "")
add("C28", [("Errors", "MCErrors.cfg")], [("Errors", "MCErrorsFull.cfg")], _g("drv_err", "ErrTrace", lambda t, r: [("failures", gee.err_cases(r, q(t, 1500, 20000)))]),
    "TLA+ model (TLC) of failures in nested scripts + validation of what the command line program prints about them", "")
add("C27", [("Scaffold", "MCScaffold.cfg")], [("Scaffold", "MCScaffold.cfg")], _g("drv_scaf", "ScafTrace", lambda t, r: [("layouts", gsc.scaf_cases(r, q(t, 400, 5000)))]),
    "TLA+ model (TLC) of creating a layout + validation of what --init creates and of running it against simulated hosts", "")
add("C26", [("Log", "MCLogQuick.cfg")], [("Log", "MCLogFull.cfg")], _g("drv_report", "LogTrace", lambda t, r: [("reports", gp.report_cases(r, q(t, 1200, 15000)))]),
    "TLA+ model (TLC) of printed differences and reports + validation of the output of operations", "")
