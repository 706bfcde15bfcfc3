"""Runs repository operations against real local repositories (C23, dry runs for C14)."""
import os, shutil, subprocess
import vhost, drv_sys

CHAINS = {"m": (None, 6), "d": ("m2", 4), "x": ("m1", 4)}     # linear histories and where they start
_template = {}
DIR = dict(r1="r1.git", r2="r1.gitmirror", r3="r3.git", r4="r4.git")     # one name is a prefix of the other
# r4 has a submodule `sub` (which has a submodule `inner`); what its commits refer to
SUBS = dict(m1="~", m2="s1", m3="s1", m4="s2", m5="s3", m6="s2", d1="s1", d2="s2", d3="~", d4="s1", x1="~", x2="s1", x3="s2", x4="s3")
INNER = dict(s1="i1", s2="i2", s3="~")
INNERS = [["i1", "~"], ["i2", "i1"]]
SUBPAR = [["s1", "~"], ["s2", "s1"], ["s3", "s2"]]

def sh(*a, **k): return subprocess.run(a, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **k).stdout.decode().strip()

def parents():
    res = []
    for ch, (base, n) in CHAINS.items():
        for i in range(1, n + 1): res.append([f"{ch}{i}", base if i == 1 else f"{ch}{i-1}"])
    return res

def template(where, repo, subs=None):
    """A bare repository holding all commits and annotated tags, but no references."""
    p = f"{where}/tmpl-{repo}.git"
    sh("git", "init", "-q", "--bare", "--initial-branch=main", p)
    marks, stream, mk = {}, [], 0
    for i, (label, parent) in enumerate(parents()):
        mk += 1
        marks[label] = mk
        c = f"{repo}{label}"
        stream.append(f"commit refs/tmp/{label}\nmark :{mk}\ncommitter V <v@e> {1600000000 + i} +0000\ndata {len(c)}\n{c}\n"
                      + (f"from :{marks[parent]}\n" if parent else "") + f"M 100644 inline f\ndata {len(c)}\n{c}\n" + (gitlink("sub", subs.get(SUBS[label])) if subs else "") + "\n")
    for label in list(marks):
        stream.append(f"tag ann-{label}\nfrom :{marks[label]}\ntagger V <v@e> 1600000100 +0000\ndata 1\nt\n")
    sh("git", "-C", p, "fast-import", "--quiet", f"--export-marks={p}/marks", input="".join(stream).encode())
    sha = {}
    with open(f"{p}/marks") as f:
        byn = {l.split()[0][1:]: l.split()[1] for l in f}
    for label, n in marks.items(): sha[label] = byn[str(n)]
    tags = {}
    for l in sh("git", "-C", p, "for-each-ref", "--format=%(refname) %(objectname)", "refs/tags").split("\n"):
        r, s = l.split(); tags[r[len("refs/tags/ann-"):]] = s
    for r in sh("git", "-C", p, "for-each-ref", "--format=%(refname)").split("\n"): sh("git", "-C", p, "update-ref", "-d", r)
    return p, sha, tags

def modules(where):
    """The submodules: bare repositories with one branch, and their commits."""
    sha = {}
    for name, par, link in (("inner", INNERS, {}), ("sub", SUBPAR, INNER)):
        p = f"{where}/{name}.git"
        sh("git", "init", "-q", "--bare", "--initial-branch=main", p)
        marks, stream = {}, []
        for i, (label, parent) in enumerate(par):
            marks[label] = i + 1
            stream.append(f"commit refs/heads/main\nmark :{i + 1}\ncommitter V <v@e> {1600000000 + i} +0000\ndata {len(label)}\n{label}\n"
                          + (f"from :{marks[parent]}\n" if parent != "~" else "") + f"M 100644 inline f\ndata {len(label)}\n{label}\n" + gitlink("inner", sha.get(link.get(label))) + "\n")
        sh("git", "-C", p, "fast-import", "--quiet", f"--export-marks={p}/marks", input="".join(stream).encode())
        with open(f"{p}/marks") as f:
            byn = {l.split()[0][1:]: l.split()[1] for l in f}
        for label, n in marks.items(): sha[label] = byn[str(n)]
    return sha

def gitlink(name, commit):
    if commit is None: return f"D {name}\nD .gitmodules\n"
    m = f'[submodule "{name}"]\n\tpath = {name}\n\turl = ../{name}.git\n'
    return f"M 160000 {commit} {name}\nM 100644 inline .gitmodules\ndata {len(m)}\n{m}\n"

def setup():
    if not _template:
        base = os.path.realpath(os.path.join(os.getcwd(), f"git-{os.getpid()}"))
        os.makedirs(base)
        with open(f"{base}/gitconfig", "w") as f: f.write("[user]\nname = V\nemail = v@e\n[protocol \"file\"]\nallow = always\n[safe]\ndirectory = *\n")
        _template["cfg"] = f"{base}/gitconfig"
        os.environ["GIT_CONFIG_GLOBAL"] = _template["cfg"]
        # Fails the n-th git command once the file named below holds n (the driver itself never leaves one there).
        os.mkdir(f"{base}/bin")
        with open(f"{base}/bin/git", "w") as f:
            f.write(f"""#!/bin/sh
if [ -e {base}/fault ]; then
  read n < {base}/fault
  if [ "$n" -le 1 ]; then rm {base}/fault; echo "fatal: injected" >&2; exit 128; fi
  echo $((n - 1)) > {base}/fault
fi
exec {shutil.which("git")} "$@"
""")
        os.chmod(f"{base}/bin/git", 0o755)
        os.environ["PATH"] = f"{base}/bin:" + os.environ["PATH"]
        _template["fault"] = f"{base}/fault"
        for r in ("r1", "r2"): _template[r] = template(base, r)
        _template["subs"] = modules(base)
        _template["r4"] = template(base, "r4", _template["subs"])
        _template["base"] = base

def run_case(scn, d):
    import fora, fora.connection
    from fora.operations import git
    setup()
    vhost.setup_args()
    d = os.path.realpath(d)
    os.mkdir(f"{d}/w")
    path = f"{d}/w/repo"
    label = {}
    refs = {}
    withsubs = scn.get("subs", False)
    if withsubs:
        for x in ("sub", "inner"): shutil.copytree(f"{_template['base']}/{x}.git", f"{d}/{x}.git")
        for l, s in _template["subs"].items(): label[s] = l
    for r in ("r1", "r2", "r4") if withsubs else ("r1", "r2"):
        p, sha, _ = _template[r]
        shutil.copytree(p, f"{d}/{DIR[r]}")
        for l, s in sha.items(): label[s] = r + l
        refs[r] = dict(heads={}, tags={}, head="main")
    def ref(r, name, sha):
        fn = f"{d}/{DIR[r]}/{name}"
        if sha is None: os.unlink(fn)
        else:
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            with open(fn, "w") as f: f.write(sha + "\n")
    def remote(a):
        r = a["repo"]
        p, sha, ann = _template[r]
        if a["act"] == "branch": ref(r, "refs/heads/" + a["n"], sha[a["c"]]); refs[r]["heads"][a["n"]] = r + a["c"]
        elif a["act"] == "delbranch":
            if refs[r]["heads"].pop(a["n"], None): ref(r, "refs/heads/" + a["n"], None)
        elif a["act"] == "tag": ref(r, "refs/tags/" + a["n"], (ann if a["ann"] else sha)[a["c"]]); refs[r]["tags"][a["n"]] = r + a["c"]
        elif a["act"] == "deltag":
            if refs[r]["tags"].pop(a["n"], None): ref(r, "refs/tags/" + a["n"], None)
        elif a["act"] == "head":
            with open(f"{d}/{DIR[r]}/HEAD", "w") as f: f.write(f"ref: refs/heads/{a['n']}\n")
            refs[r]["head"] = a["n"]
    def url(u): return {"path": f"{d}/%s", "file": f"file://{d}/%s"}[u["form"]] % DIR[u["repo"]]
    def read(p):
        try:
            with open(p) as f: return f.read()
        except OSError: return "~"
    def state():
        s = dict(kind="absent", origin="~", commit="~", f="~", extra=[], siblings=sorted(x for x in os.listdir(f"{d}/w") if x != "repo"), index="~", branches=[], tags=[], count=0, head="~", sub="~", subf="~", subn=0, inner="~", innerf="~")
        if not os.path.lexists(path): return s
        if not os.path.isdir(path): s["kind"] = "file"; s["f"] = read(path); return s
        s["extra"] = sorted(f"{x}={read(os.path.join(path, x))}" for x in os.listdir(path) if x not in (".git", "f", *(("sub", ".gitmodules") if withsubs else ())))
        s["f"] = read(f"{path}/f")
        if not os.path.isdir(f"{path}/.git"): s["kind"] = "dir"; s["extra"].append("git=" + read(f"{path}/.git")); return s
        s["kind"] = "repo"
        s["origin"] = subprocess.run(["git", "-C", path, "config", "--get", "remote.origin.url"], stdout=subprocess.PIPE).stdout.decode().strip()
        h = subprocess.run(["git", "-C", path, "rev-parse", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().strip()
        s["commit"] = label.get(h, "other:" + h)
        s["count"] = int(subprocess.run(["git", "-C", path, "rev-list", "--count", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().strip() or 0)
        s["index"] = subprocess.run(["git", "-C", path, "status", "--porcelain", "--untracked-files=no", "--ignore-submodules=all"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().strip()
        s["head"] = subprocess.run(["git", "-C", path, "symbolic-ref", "--quiet", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().strip().removeprefix("refs/heads/") or "~"
        for k, m in (("sub", "sub"), ("inner", "sub/inner")) if withsubs else ():
            if not os.path.exists(f"{path}/{m}/.git"): continue
            h = subprocess.run(["git", "-C", f"{path}/{m}", "rev-parse", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().strip()
            s[k] = label.get(h, "other:" + h)
            s[k + "f"] = read(f"{path}/{m}/f")
            if k == "sub":
                s["subn"] = int(subprocess.run(["git", "-C", f"{path}/{m}", "rev-list", "--count", "HEAD"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().strip() or 0)
                s["extra"] += [f"sub/{x}" for x in sorted(os.listdir(f"{path}/{m}")) if x.startswith("note")]
        for l in subprocess.run(["git", "-C", path, "for-each-ref", "--format=%(refname) %(objectname) %(*objectname)"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().splitlines():
            n, c = l.split()[0], l.split()[-1]
            for k, pre in (("branches", "refs/heads/"), ("tags", "refs/tags/")):
                if n.startswith(pre): s[k].append([n[len(pre):], label.get(c, "other:" + c)])
        return s
    def rp(r): return dict(heads=[[k, v] for k, v in r["heads"].items()], tags=[[k, v] for k, v in r["tags"].items()], head=r["head"])
    def short(x):
        if not x: return dict(initialized="~", commit="~")
        return dict(initialized=str(x.get("initialized")), commit="~" if x.get("commit") is None else label.get(x["commit"], "other:" + str(x["commit"])))
    events = []
    host = vhost.new_host()
    with vhost.quiet(), fora.connection.open_connection(host):
        for i, st in enumerate(scn["steps"]):
            k = st["kind"]
            if k == "remote": remote(st["a"]); continue
            if k == "local":
                a = st["act"]
                if a == "rm":
                    shutil.rmtree(path, ignore_errors=True)
                    if os.path.lexists(path): os.unlink(path)
                elif not os.path.lexists(path):
                    if a == "dir": os.mkdir(path)
                    if a in ("gitfile", "plain"):
                        os.mkdir(path)
                        with open(f"{path}/{'.git' if a == 'gitfile' else 'data'}", "w") as f: f.write("gitdir: /nonexistent\n")
                    if a == "file":
                        with open(path, "w") as f: f.write("precious")
                    if a == "link": os.symlink(d + "/r1.git", path)
                elif os.path.isdir(path) and not os.path.islink(path):
                    if a == "untracked":
                        with open(f"{path}/note{i}", "w") as f: f.write("mine")
                    if a == "commit" and os.path.exists(f"{path}/f"):
                        with open(f"{path}/f", "w") as f: f.write(f"local{i}")
                        sh("git", "-C", path, "commit", "-q", "-a", "-m", "local")
                        label[sh("git", "-C", path, "rev-parse", "HEAD")] = f"local{i}"
                    if a == "subfile" and os.path.exists(f"{path}/sub/.git"):
                        with open(f"{path}/sub/note{i}", "w") as f: f.write("mine")
                    if a == "submove" and os.path.exists(f"{path}/sub/.git"):
                        subprocess.run(["git", "-C", f"{path}/sub", "checkout", "-q", "--detach", _template["subs"][st["c"]]], stderr=subprocess.DEVNULL)
                    if a == "modify" and os.path.exists(f"{path}/f"):
                        with open(f"{path}/f", "w") as f: f.write("modified")
                continue
            before = state()
            o = st["o"]
            kw = {x: y for x, y in o.items() if x in ("branch_or_tag", "update", "depth", "rebase", "ff_only", "update_submodules", "recursive_submodules", "shallow_submodules") and y is not None}
            fora.args.dry = k == "dry"
            raw = []
            def call():
                r = git.repo(url=url(o["url"]), path=path, **({} if st["check"] is None else dict(check=st["check"])), **vhost.spoken(kw))
                raw.append(r)
                return r
            if st.get("fault"):
                with open(_template["fault"], "w") as f: f.write(f"{st['fault']}\n")
            res = drv_sys.result(call)
            hit = bool(st.get("fault")) and not os.path.exists(_template["fault"])
            if st.get("fault") and not hit: os.unlink(_template["fault"])
            fora.args.dry = False
            res["i"], res["f"] = (short(raw[0].initial), short(raw[0].final)) if raw else (short(None), short(None))
            events.append(dict(kind=k, fault=hit, n=o["depth"] or 0, id=st["id"], check=st["check"] is not False, again=st.get("again", False), url=url(o["url"]), repo=o["url"]["repo"], ref=o["branch_or_tag"] or "~", update=o["update"] is not False, depth=o["depth"] is not None,
                               rebase=o["rebase"] is not False, ff=bool(o["ff_only"]), subs=bool(o.get("update_submodules")), rec=bool(o.get("recursive_submodules")), shal=bool(o.get("shallow_submodules")), res=res, before=before, after=state(), refs=rp(refs[o["url"]["repo"]]) if o["url"]["repo"] in refs else dict(heads=[], tags=[], head="~")))
    par = [[r + c, "~" if p is None else r + p] for r in ("r1", "r2") for c, p in parents()]
    if withsubs: par += [["r4" + c, "~" if p is None else "r4" + p] for c, p in parents()] + SUBPAR + INNERS
    return dict(outcome="ok", events=events, parents=par, subs=[["r4" + c, x] for c, x in SUBS.items()] if withsubs else [], inner=[[c, x] for c, x in INNER.items()])
