"""Helpers to run fora in-process against a local dispatcher."""
import argparse, contextlib, grp, hashlib, io, os, pwd, sys, zlib

def setup_args(**kw):
    import fora
    d = dict(debug=False, verbose=0, dry=False, changes=False, diff=False, no_color=True, hosts=None)
    d.update(kw)
    fora.args = argparse.Namespace(**d)

def tok(b):
    """A comparable token for a byte string (None: not available)."""
    if b is None: return "~none"
    if len(b) <= 40: return "x" + b.hex()
    return f"h{len(b)}-" + hashlib.sha256(b).hexdigest()[:24]

def stok(s):
    return "~none" if s is None else tok(os.fsencode(s) if isinstance(s, str) else s)

def content(spec):
    """Builds bytes from a compact description: ["hex", "00ff"] or ["rep", byte, n] or ["all", n] """
    if spec is None: return None
    if spec[0] == "hex": return bytes.fromhex(spec[1])
    if spec[0] == "rep": return bytes([spec[1]]) * spec[2]
    if spec[0] == "tail": return bytes([spec[1]]) * spec[2] + bytes.fromhex(spec[3])
    if spec[0] == "all": return bytes(i % 256 for i in range(spec[1]))
    raise ValueError(spec)

def text(spec):
    """["u", "..."] plain, ["s", hex] bytes decoded with surrogateescape, ["lone"] unencodable"""
    if spec is None: return None
    if isinstance(spec, str): return spec
    if spec[0] == "s": return bytes.fromhex(spec[1]).decode("utf-8", "surrogateescape")
    if spec[0] == "lone": return "a\ud800b"
    if spec[0] == "nul": return "a\0b"
    raise ValueError(spec)

def new_host(url="local:vh", connector=None):
    """Loads an immediate inventory with a single host and makes it current."""
    import fora, fora.loader
    from fora.types import ScriptWrapper
    with quiet():
        fora.loader.load_inventory(url)
    host = next(iter(fora.inventory.loaded_hosts.values()))
    if connector is not None:
        host.connector = connector
    fora.host = host
    fora.script = ScriptWrapper("harness")
    return host

# what operations do unless told otherwise, as documented
DOCUMENTED = dict(present=True, touch=False, mode=None, owner=None, group=None, dir_mode=None, file_mode=None, context=None, regex=None, ignore_whitespace=True, backup=False, name=None, check=True,
                  opts=None, oneshot=False, state=None, enabled=None, user_mode=False, uid=None, gid=None, groups=None, append_groups=False, system=False, password_hash=None, home=None, shell=None, comment=None,
                  branch_or_tag=None, update=True, depth=None, rebase=True, ff_only=False, update_submodules=False, recursive_submodules=False, shallow_submodules=False)
def spoken(kw):
    """The arguments of a call; those that say what is documented anyway are left out in half of the calls."""
    if zlib.crc32(repr(sorted(kw.items(), key=repr)).encode()) & 1: return kw
    return {k: v for k, v in kw.items() if not (k in DOCUMENTED and type(v) is type(DOCUMENTED[k]) and v == DOCUMENTED[k])}

@contextlib.contextmanager
def quiet():
    # a real file: fora hands sys.stderr to child processes
    with open(os.devnull, "w") as buf, contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        yield buf

def accounts():
    """The account database of this machine as seen by the C library (not by fora)."""
    shadow = {}
    try:
        with open(os.path.join(os.environ.get("NSSDB_DIR", "/etc"), "shadow")) as f:
            for l in f:
                p = l.rstrip("\n").split(":")
                shadow[p[0]] = p[1]
    except OSError:
        pass
    users, groups, uids, gids = {}, {}, {}, {}
    for g in grp.getgrall():
        groups.setdefault(g.gr_name, dict(gid=g.gr_gid, members=list(g.gr_mem)))
        gids.setdefault(str(g.gr_gid), grp.getgrgid(g.gr_gid).gr_name)
    for u in pwd.getpwall():
        if str(u.pw_gid) not in gids: continue
        users.setdefault(u.pw_name, dict(uid=u.pw_uid, gid=u.pw_gid, group=gids[str(u.pw_gid)], groups=sorted(g.gr_name for g in grp.getgrall() if u.pw_name in g.gr_mem),
                                         gecos=u.pw_gecos, home=u.pw_dir, shell=u.pw_shell, hash=shadow.get(u.pw_name, "~none")))
        uids.setdefault(str(u.pw_uid), pwd.getpwuid(u.pw_uid).pw_name)
    return dict(users=users, groups=groups, uids=uids, gids=gids)

SMALL = ["root", "daemon", "bin", "nobody", "games"]
def small_accounts():
    """Restricted to a few accounts, to keep recordings small."""
    a = accounts()
    if "NSSDB_DIR" in os.environ: return a
    users = {k: v for k, v in a["users"].items() if k in SMALL}
    gn = {v["group"] for v in users.values()} | {g for v in users.values() for g in v["groups"]} | {"root", "daemon", "bin", "adm", "video", "games", "audio"}
    groups = {k: v for k, v in a["groups"].items() if k in gn}
    return dict(users=users, groups=groups, uids={k: v for k, v in a["uids"].items() if v in users}, gids={k: v for k, v in a["gids"].items() if v in groups})

def lstat(p):
    """The state of a path as seen by the operating system (not by fora)."""
    import stat
    try: s = os.lstat(p)
    except FileNotFoundError: return None
    t = {stat.S_IFREG: "file", stat.S_IFDIR: "dir", stat.S_IFLNK: "link"}.get(stat.S_IFMT(s.st_mode), "other")
    return dict(type=t, mode=oct(stat.S_IMODE(s.st_mode))[2:], owner=uname(s.st_uid), group=gname(s.st_gid))

def uname(uid):
    try: return pwd.getpwuid(uid).pw_name
    except KeyError: return str(uid)
def gname(gid):
    try: return grp.getgrgid(gid).gr_name
    except KeyError: return str(gid)
