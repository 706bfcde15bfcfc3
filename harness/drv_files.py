"""Drives file operations against a scratch directory, recording the complete tree around every operation (C12-C17, C22)."""
import errno, hashlib, os, re, shutil, stat, subprocess, time
import vhost
from vhost import tok, stok, content, text

OLD = 1_000_000_000

# --- the guarded connector: nothing outside of the case's directory can be written ------------------
class GuardRefused(Exception): pass

def make_connector(root, st):
    from fora.connectors.local import LocalConnector
    from fora.connectors.connector import CompletedRemoteCommand
    from fora.connectors.tunnel_dispatcher import RemoteOSError

    def inside(p):
        return p == root or p.startswith(root + "/")
    def check_path(p):
        if not p.startswith("/") or not inside(os.path.normpath(p)):
            refuse(p)
    def refuse(what):
        st["guard"].append(str(what)[:100])
        raise GuardRefused(f"refused: {what!r}")
    OKPATHS = ("/dev/null", "/bin/sh", "/bin/bash", "/usr/bin/env")
    def check_cmd(cmd, cwd):
        if cwd is None or not inside(os.path.realpath(cwd)): refuse(f"cwd {cwd}")
        for i, a in enumerate(cmd):
            if i == 0 and re.fullmatch(r"(/usr)?/s?bin/[\w.-]+", a): continue
            if ".." in a.split("/") or ".." == a: refuse(a)
            shell = i > 0 and cmd[i - 1] in ("-c", "-ec", "-lc")
            for m in re.finditer(r"(?:^|(?<=[\s=:;'\"`(){}<>|&$,]))/[^\s'\";|&<>`(){}]*" if shell else r"(?:^|(?<=[=:,]))/.*$", a, re.S):
                p = os.path.normpath(m.group(0))
                if p in OKPATHS or inside(p): continue
                if not shell and i > 0 and st.get("targets") and m.group(0) in st["targets"]: continue   # a link target is data
                refuse(a)

    class Guarded(LocalConnector):
        def _req(self, kind, fn, checked=True):
            f = st["fault"]
            if f is None: return fn()
            st["n"] += 1
            if st["n"] != f["at"]: return fn()
            if f["when"] == "after": fn()     # (a request that fails by itself needs no fault)
            st["hit"] = True
            if f["exc"] == "cpe" and kind == "run":
                if not checked: return CompletedRemoteCommand(stdout=b"", stderr=b"injected", returncode=1)
                raise subprocess.CalledProcessError(1, ["injected"], output=b"", stderr=b"injected")
            if f["exc"] == "io":
                raise IOError("injected connection failure")
            raise RemoteOSError(errno.EIO, "injected", "injected failure")
        def run(self, command, *a, **k):
            check_cmd(list(command), k.get("cwd"))
            st["log"].append(list(command))
            return self._req("run", lambda: super(Guarded, self).run(command, *a, **k), k.get("check", True))
        def upload(self, file, *a, **k):
            check_path(file)
            st["log"].append(["upload", file])
            return self._req("upload", lambda: super(Guarded, self).upload(file, *a, **k))
        def stat(self, *a, **k): return self._req("stat", lambda: super(Guarded, self).stat(*a, **k))
        def download(self, *a, **k): return self._req("download", lambda: super(Guarded, self).download(*a, **k))
        def resolve_user(self, *a, **k): return self._req("resolve", lambda: super(Guarded, self).resolve_user(*a, **k))
        def resolve_group(self, *a, **k): return self._req("resolve", lambda: super(Guarded, self).resolve_group(*a, **k))
    return Guarded

# --- the host as the operating system sees it ---------------------------------------------------------
def snapshot(root, shas=None):
    """path -> entry for everything below root."""
    res = {}
    def walk(d, rel):
        for e in sorted(os.listdir(d)):
            p = os.path.join(d, e); k = f"{rel}/{e}" if rel else e
            s = os.lstat(p)
            ent = dict(mode="~", owner=vhost.uname(s.st_uid), group=vhost.gname(s.st_gid), data="~", parent=rel, to="~",
                       st=f"{s.st_ino}-{s.st_ctime_ns}-{s.st_mtime_ns}", mt=str(s.st_mtime_ns), fresh=min(s.st_mtime, s.st_atime) > OLD + 10**8)
            if stat.S_ISLNK(s.st_mode):
                t = os.readlink(os.fsencode(p))
                ent.update(type="link", data=tok(t))
                try:
                    os.stat(p)
                    full = os.path.realpath(p)
                    ent["to"] = "" if full == root else full[len(root) + 1:] if full.startswith(root + "/") else "?notdir"
                except FileNotFoundError: ent["to"] = "?none"
                except OSError: ent["to"] = "?notdir"
            elif stat.S_ISDIR(s.st_mode):
                ent.update(type="dir", mode=oct(stat.S_IMODE(s.st_mode))[2:])
            elif stat.S_ISREG(s.st_mode):
                with open(p, "rb") as f: b = f.read()
                if shas is not None: shas[hashlib.sha512(b).digest()] = tok(b)
                ent.update(type="file", mode=oct(stat.S_IMODE(s.st_mode))[2:], data=tok(b))
            else:
                ent.update(type="other", mode=oct(stat.S_IMODE(s.st_mode))[2:])
            m = re.fullmatch(r"(.+)\.\d{4}-?\d\d-?\d\dT\d\d:?\d\d:?\d\d(\.\d+)?(Z|\+00:?00)\.bak", k)
            ent["bakof"] = m.group(1) if m else "~"
            k = "".join(ch if ch.isprintable() and ord(ch) < 128 or not 0xd800 <= ord(ch) < 0xe000 else "?" for ch in k)
            res[k] = ent
            if ent["type"] == "dir": walk(p, k)
    walk(root, "")
    return res

def uid_of(n):
    import pwd
    return int(n) if n.isdigit() else pwd.getpwnam(n).pw_uid
def gid_of(n):
    import grp
    return int(n) if n.isdigit() else grp.getgrnam(n).gr_gid

def build(root, tree):
    for e in tree:
        p = os.path.join(root, e["path"])
        if not os.path.isdir(os.path.dirname(p)) or os.path.lexists(p): continue
        if e["type"] == "dir": os.mkdir(p)
        elif e["type"] == "link": os.symlink(text(e["target"]), p)
        elif e["type"] == "fifo": os.mkfifo(p)
        else:
            with open(p, "wb") as f: f.write(content(e["data"]))
        os.lchown(p, uid_of(e["owner"]), gid_of(e["group"]))
        if e["type"] != "link": os.chmod(p, int(e["mode"], 8))
    age(root)

def age(root):
    """Makes everything look old, so that touching it is visible."""
    for d, ds, fs in os.walk(root, topdown=False):
        for n in ds + fs: os.utime(os.path.join(d, n), (OLD, OLD), follow_symlinks=False)

def settle():
    time.sleep(0.006)   # the kernel's time stamps have limited resolution

def external(root, x):
    """Something else on the host changes a path."""
    p = os.path.join(root, *x["path"])
    if not os.path.lexists(p) or os.path.realpath(os.path.dirname(p)) + "/" != os.path.join(os.path.realpath(root), *x["path"][:-1]) + "/": return
    isl, isd = os.path.islink(p), os.path.isdir(p)
    if x["act"] == "rm":
        if isd and not isl: shutil.rmtree(p)
        else: os.unlink(p)
    elif x["act"] == "write" and os.path.isfile(p) and not isl:
        with open(p, "wb") as f: f.write(b"external")
    elif x["act"] == "chmod" and not isl: os.chmod(p, 0o751)
    elif x["act"] == "chown": os.lchown(p, uid_of("games"), gid_of("games"))
    elif x["act"] == "swap":    # becomes a symbolic link
        if isd and not isl: shutil.rmtree(p)
        else: os.unlink(p)
        os.symlink("keep", p)

def describe(d, shas):
    """A reported state as [key, value] pairs; unset values are omitted."""
    res = []
    for k, v in sorted(d.items()):
        if v is None: continue
        if isinstance(v, bool): v = "yes" if v else "no"
        elif isinstance(v, bytes): v = shas.get(v, "?") if k == "sha512" else tok(v)
        elif k == "target": v = stok(v)
        res.append([k, str(v)])
    return res

def flags(e):
    return dict(k=e["kind"])

def run_case(scn, d):
    import fora, fora.connection
    from fora.operations import files
    root = os.path.join(os.path.realpath(d), "root"); src = os.path.join(os.path.realpath(d), "src")
    os.mkdir(root); os.mkdir(src)
    build(root, scn["tree"])
    if "srctree" in scn: build(src, scn["srctree"])
    env = vhost.small_accounts()
    st = dict(guard=[], fault=None, n=0, hit=False, log=[])
    os.chdir(d)
    shas = {hashlib.sha512(b"").digest(): tok(b"")}
    events = []
    vhost.setup_args(**scn.get("args", {}))
    host = vhost.new_host(connector=make_connector(root, st))
    init = snapshot(root, shas)
    with vhost.quiet():
        with fora.connection.open_connection(host) as conn:
            b = conn.base_settings
            dflt = {k: v for k, v in scn["dflt"].items() if v is not None}
            with fora.script.defaults(cwd=root, **dflt):
                cur = fora.script.current_defaults()
                # what the defaults are is stated by the scenario, apart from fora's built-in ones
                env["dflt"] = dict(file_mode=dflt.get("file_mode", "600"), dir_mode=dflt.get("dir_mode", "700"), owner=dflt.get("owner", "root"), group=dflt.get("group", "root"))
                for s in scn["steps"]:
                    if s["kind"] == "ext":
                        external(root, s)
                        settle()
                        events.append(dict(kind="ext", post=snapshot(root, shas)))
                        continue
                    fora.args.dry = s["kind"] == "dry"
                    st.update(fault=s.get("fault") if s["kind"] == "fault" else None, n=0, hit=False, guard=[], log=[])
                    o, call = OPS[s["o"]["op"]](files, s["o"], s["check"], root, src, st, shas)
                    pre = lines_of(root, s["o"]) if s["o"]["op"] == "line" else None
                    settle()
                    try:
                        r = call()
                        if r is None or isinstance(r, type): res = dict(o="none")
                        else:
                            res = dict(o="ok", success=bool(r.success), changed=bool(r.changed), msg=bool(r.failure_message), initial=describe(r.initial, shas), final=describe(r.final, shas)) if s["o"]["op"] not in NESTED else \
                                  dict(o="ok", success=bool(r.success), changed=bool(r.changed), msg=bool(r.failure_message), initial={rel(root, k): describe(v, shas) for k, v in r.initial.items()}, final={rel(root, k): describe(v, shas) for k, v in r.final.items()})
                    except Exception as e:
                        res = dict(o="raise", type=type(e).__name__, detail=str(e)[:160])
                    st["fault"] = None
                    ev = dict(kind=s["kind"], again=s.get("again", False), o=o, check=s["check"], hit=st["hit"], guard=len(st["guard"]), guarded=st["guard"], res=res, post=snapshot(root, shas))
                    if pre is not None: ev.update(pre=pre, now=lines_of(root, s["o"]))
                    if "log" in scn: ev["log"] = st["log"]
                    events.append(ev)
    return dict(outcome="ok", env=env, init=init, events=events)

def rel(root, k):
    return k[len(root) + 1:] if k.startswith(root + "/") else k

def spell(root, s):
    comps = s["path"]
    sp = s.get("spell", "plain")
    if sp == "relative": return "/".join(comps)
    if sp == "dotrel": return "./" + "/".join(comps)
    if sp == "tilde": return "~/" + "/".join(comps)
    if sp == "empty": return ""
    if sp == "double": return root + "//" + "//".join(comps)
    if sp == "dot": return root + "/./" + "/./".join(comps)
    if sp == "slash": return root + "/" + "/".join(comps) + "/"
    return root + "/" + "/".join(comps)

def common_o(s):
    return dict(op=s["op"], comps=s["path"], base=s["path"][-1], present=s.get("present", True), touch=s.get("touch", False), mode=s.get("mode"), owner=s.get("owner"), group=s.get("group"),
                target="~", data="~", slash=s.get("spell") == "slash", badarg=s.get("badarg", False) or s.get("spell") in ("relative", "empty", "dotrel", "tilde"))

def kw(s, check, *names):
    res = {n: s[n] for n in names if s.get(n) is not None}
    if not check: res["check"] = False
    if s.get("name"): res["name"] = s["name"]
    return vhost.spoken(res)

def op_dir(files, s, check, root, src, st, shas):
    return common_o(s), lambda: files.directory(spell(root, s), **kw(s, check, "present", "touch", "mode", "owner", "group"))
def op_file(files, s, check, root, src, st, shas):
    return common_o(s), lambda: files.file(spell(root, s), **kw(s, check, "present", "touch", "mode", "owner", "group"))
def op_link(files, s, check, root, src, st, shas):
    t = text(s["target"])
    if isinstance(t, str): t = t.replace("@R", root)
    st["targets"] = [t]
    o = common_o(s); o["target"] = stok(t); o["badarg"] = o["badarg"] or t == ""
    return o, lambda: files.link(spell(root, s), t, **kw(s, check, "present", "touch", "owner", "group"))
def op_content(files, s, check, root, src, st, shas):
    c = content(s["content"])
    shas[hashlib.sha512(c).digest()] = tok(c)
    o = common_o(s); o["data"] = tok(c)
    k = kw(s, check, "mode", "owner", "group")
    via, dest = s["via"], spell(root, s)
    def put(b):
        fn = os.path.join(src, s["path"][-1])
        with open(fn, "wb") as f: f.write(b)
        return fn
    def into(p): return os.path.dirname(p) + "/"
    if via == "bytes": return o, lambda: files.upload_content(c, dest, **k)
    if via == "str": return o, lambda: files.upload_content(c.decode(), dest, **k)
    if via == "file": return o, lambda: files.upload(put(c), dest, **k)
    if via == "into": return o, lambda: files.upload(put(c), into(dest) if dest else "", **k)
    if via == "missing": return o, lambda: files.upload(os.path.join(src, "not-there"), dest, **k)
    tmpl = lambda b: "{{ pre }}".encode() + b[1:] if b else b
    ctx = dict(pre=c[:1].decode("latin1"))
    if via == "tcontent": return o, lambda: files.template_content(tmpl(c).decode(), dest, context=ctx, **k)
    if via == "tfile": return o, lambda: files.template(put(tmpl(c)), dest, context=ctx, **k)
    if via == "tinto": return o, lambda: files.template(put(tmpl(c)), into(dest) if dest else "", context=ctx, **k)
    if via == "tundef": return o, lambda: files.template_content("{{ surely_undefined_name }}", dest, **k)
    raise ValueError(via)
# --- single lines ---------------------------------------------------------------------------------------
def to_lines(b, rx):
    """Splits content into lines; nothing is lost."""
    res = []
    for m in re.finditer(rb"([^\n]*?)(\r?\n)|([^\n]+)$", b):
        t, e = (m.group(1), m.group(2)) if m.group(2) else (m.group(3), b"")
        u = t.decode("utf-8", "surrogateescape")
        res.append(dict(t=tok(t), s=stok(u.strip()), e=e.hex(), r=bool(rx is not None and re.search(rx, u))))
    assert sum(len(m.group(0)) for m in re.finditer(rb"([^\n]*?)(\r?\n)|([^\n]+)$", b)) == len(b)
    return res
def lines_of(root, s):
    p = os.path.join(root, *s["path"])
    if os.path.islink(p) or not os.path.isfile(p): return []
    with open(p, "rb") as f: return to_lines(f.read(), s.get("regex"))
def op_line(files, s, check, root, src, st, shas):
    line = text(s["line"]); rx = s.get("regex")
    b = s.get("backup", False)
    parent = "/".join(s["path"][:-1])
    o = dict(op="line", key="/".join(s["path"]), parent=parent, present=s["present"], t=stok(line), s=stok(line.strip()), rx=rx is not None, lm=bool(rx is not None and re.search(rx, line)), ws=s.get("ws", True),
             backup="~" if not b else "auto" if b is True else "named", bakkey="~" if not b or b is True else (parent + "/" if parent else "") + b, bakdir=os.path.dirname((parent + "/" if parent else "") + b) if isinstance(b, str) else "", badarg=s.get("spell") in ("relative", "empty", "dotrel", "tilde"))
    k = dict(present=s["present"], regex=rx, backup=b)
    if "ws" in s: k["ignore_whitespace"] = s["ws"]
    if not check: k["check"] = False
    return o, lambda: files.line(spell(root, s), line, **vhost.spoken(k))
def op_updir(files, s, check, root, src, st, shas):
    name = s["src"]
    full = os.path.join(src, name)
    entries = []
    def walk(d, comps):
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n); t = vhost.lstat(p)["type"]
            if t == "link" and os.path.isfile(p): t = "file"    # links count as the file they refer to
            e = dict(comps=comps + [n], type=t, data="~")
            if t == "file":
                with open(p, "rb") as f: b = f.read()
                e["data"] = tok(b); shas[hashlib.sha512(b).digest()] = tok(b)
            entries.append(e)
            if t == "dir": walk(p, comps + [n])
    if os.path.isdir(full): walk(full, [])
    o = dict(op="updir", srcname=name, dest=s["path"], slash=s["slash"], dir_mode=s.get("dir_mode"), file_mode=s.get("file_mode"), owner=s.get("owner"), group=s.get("group"), entries=entries,
             badarg=s.get("spell") == "relative" or not os.path.isdir(full))
    k = kw(s, check, "dir_mode", "file_mode", "owner", "group")
    sp = {"abs": full, "absslash": full + "/", "rel": "src/" + name, "relslash": "src/" + name + "/", "dot": "./src/./" + name}[s["srcspell"]]
    dest = "/".join(s["path"]) if s.get("spell") == "relative" else root + "".join("/" + x for x in s["path"])
    return o, lambda: files.upload_dir(sp, dest + ("/" if s["slash"] else ""), **k)
OPS = dict(updir=op_updir, line=op_line, dir=op_dir, file=op_file, link=op_link, content=op_content)
NESTED = ("updir",)
