----------------------------- MODULE TunnelDefs -----------------------------
(* What each request means: its answer and effect on the remote file store.   *)
(* store : path -> [type, tok, size, sha, mode, owner, group]                 *)
(*   tok/sha are tokens of the content, "~" marks an unspecified attribute.   *)
(* env   : account database and environment of the remote host.               *)
(* req carries what was asked for; `bad` marks values no host can process     *)
(* (unencodable text or an embedded NUL).                                     *)
EXTENDS Naturals, Sequences, FiniteSets

RangeT(s) == {s[i] : i \in 1..Len(s)}
Err == [o |-> "err"]

UserRef(env, u) == IF u \in DOMAIN env.users THEN u
                   ELSE IF u \in DOMAIN env.uids THEN env.uids[u] ELSE "~unknown"
GroupRef(env, g) == IF g \in DOMAIN env.groups THEN g
                    ELSE IF g \in DOMAIN env.gids THEN env.gids[g] ELSE "~unknown"

\* following the symbolic links of the prepared directory
Target(store, p) == IF p \in DOMAIN store /\ store[p].type = "link" THEN store[p].tok ELSE p
Parents == {"", "sub"}

Modes == {"~", "600", "644", "755", "4755", "2750", "0640"}
Canon(m) == IF m = "0640" THEN "640" ELSE m

\* r.reach: ok | long (a name no file system can store) | file (a path through a regular file)
UploadOk(store, env, r) ==
  /\ ~r.bad /\ r.reach = "ok"
  /\ r.parent \in Parents
  /\ LET t == Target(store, r.path) IN t \notin DOMAIN store \/ store[t].type = "file"
  /\ r.mode \in Modes
  /\ r.owner = "~" \/ UserRef(env, r.owner) # "~unknown"
  /\ r.group = "~" \/ GroupRef(env, r.group) # "~unknown"

UploadEffect(store, env, r) ==
  LET t == Target(store, r.path)
      exists == t \in DOMAIN store
      chowned == r.owner # "~" \/ r.group # "~"
      e == [type |-> "file", tok |-> r.tok, size |-> r.size, sha |-> r.sha,
            mode |-> IF r.mode # "~" THEN Canon(r.mode) ELSE IF exists /\ ~chowned /\ store[t].mode \in {"600", "644", "755", "640"} THEN store[t].mode ELSE "~",
            owner |-> IF r.owner # "~" THEN UserRef(env, r.owner)
                      ELSE IF r.group # "~" THEN "root" ELSE IF exists THEN store[t].owner ELSE "root",
            group |-> IF r.group # "~" THEN GroupRef(env, r.group)
                      ELSE IF r.owner # "~" THEN env.users[UserRef(env, r.owner)].group
                      ELSE IF exists THEN store[t].group ELSE "root"]
  IN [p \in DOMAIN store \cup {t} |-> IF p = t THEN e ELSE store[p]]

Matches(spec, obs) == spec = "~" \/ spec = obs

\* the set of acceptable answers is described by a predicate over the observed result
StatEntry(store, r) == LET t == IF r.follow THEN Target(store, r.path) ELSE r.path
                       IN IF t \in DOMAIN store THEN store[t] ELSE [type |-> "absent"]
\* fs is what the operating system says about the same path (nanoseconds)
StatOk(store, r, res, fs) ==
  LET e == StatEntry(store, r) IN
  IF r.bad \/ r.reach = "file" THEN res.o = "err" \/ res.o = "none"
  ELSE IF r.reach = "long" \/ (r.follow /\ e.type = "link") THEN res.o = "err"
  ELSE IF e.type = "absent" THEN res.o = "none"
  ELSE /\ res.o = "ok" 
       /\ res.v.type = e.type
       /\ (e.type = "file" => /\ res.v.size = e.size
                              /\ res.v.sha = (IF r.sha THEN e.sha ELSE "~none"))
       /\ Matches(e.mode, res.v.mode) /\ Matches(e.owner, res.v.owner) /\ Matches(e.group, res.v.group)
       /\ Matches(IF "mtime" \in DOMAIN e THEN e.mtime ELSE "~", res.v.mtime)
       /\ res.v.mtime = fs.mtime /\ res.v.ctime = fs.ctime

DownloadOk(store, r, res) ==
  LET t == Target(store, r.path) IN
  IF ~r.bad /\ t \in DOMAIN store /\ store[t].type = "file" THEN res.o = "ok" /\ res.v = store[t].tok
  ELSE IF r.op = "download_or" /\ r.reach = "file" THEN res.o \in {"none", "err"}
  ELSE IF r.reach = "long" THEN res.o = "err"
  ELSE IF r.op = "download_or" /\ t \notin DOMAIN store THEN res.o = "none" \/ (r.bad /\ res.o = "err")
  ELSE res.o = "err"

RunRc(r) == r.rcnum
RunOk(r, res) ==
  IF r.bad THEN res.o = "err"
  ELSE /\ res.o = (IF r.check /\ RunRc(r) # 0 THEN "failed" ELSE "ok")
       /\ res.v.rc = RunRc(r)
       /\ IF r.capture THEN res.v.out = r.input /\ res.v.args = r.args
          ELSE res.v.out = "~none" /\ res.v.args = <<"~none">>

SameUser(env, n, v) ==
  LET u == env.users[n] IN
  /\ v.name = n /\ v.uid = u.uid /\ v.gid = u.gid /\ v.group = u.group /\ RangeT(v.groups) = RangeT(u.groups)
  /\ v.gecos = u.gecos /\ v.home = u.home /\ v.shell = u.shell

AnswerOk(store, env, r, res, fs) ==
  CASE r.op = "upload" -> res.o = (IF UploadOk(store, env, r) THEN "ok" ELSE "err")
    [] r.op \in {"download", "download_or"} -> DownloadOk(store, r, res)
    [] r.op = "stat" -> StatOk(store, r, res, fs)
    [] r.op = "run" -> RunOk(r, res)
    [] r.op = "badrun" -> res.o = "err"
    [] r.op = "resolve_user" -> IF r.name = "~" THEN res.o = "ok" /\ res.v = "root"
                                ELSE IF UserRef(env, r.name) = "~unknown" THEN res.o = "err"
                                ELSE res.o = "ok" /\ res.v = UserRef(env, r.name)
    [] r.op = "resolve_group" -> IF r.name = "~" THEN res.o = "ok" /\ res.v = "root"
                                ELSE IF GroupRef(env, r.name) = "~unknown" THEN res.o = "err"
                                ELSE res.o = "ok" /\ res.v = GroupRef(env, r.name)
    [] r.op = "query_user" -> IF UserRef(env, r.name) = "~unknown"
                              THEN res.o = "none" \/ (r.bad /\ res.o = "err")
                              ELSE /\ res.o = "ok"  /\ SameUser(env, UserRef(env, r.name), res.v)
                                   /\ res.v.hash = (IF r.hash THEN env.users[UserRef(env, r.name)].hash ELSE "~none")
    [] r.op = "query_group" -> IF GroupRef(env, r.name) = "~unknown"
                              THEN res.o = "none" \/ (r.bad /\ res.o = "err")
                              ELSE LET g == GroupRef(env, r.name) IN
                                   res.o = "ok"  /\ res.v.name = g /\ res.v.gid = env.groups[g].gid /\ res.v.members = env.groups[g].members
    [] r.op = "home_dir" -> IF r.name = "~" THEN res.o = "ok" /\ res.v = env.users["root"].home
                            ELSE IF UserRef(env, r.name) = "~unknown" THEN res.o = "err"
                            ELSE res.o = "ok" /\ res.v = env.users[UserRef(env, r.name)].home
    [] r.op = "getenv" -> IF r.bad THEN res.o = "err" \/ res.o = "none"
                          ELSE IF r.name \in DOMAIN env.environ THEN res.o = "ok" /\ res.v = env.environ[r.name] ELSE res.o = "none"
    [] r.op = "die" -> res.o = "err"

Effect(store, env, r) == IF r.op = "upload" /\ UploadOk(store, env, r) THEN UploadEffect(store, env, r) ELSE store
=============================================================================
