------------------------------ MODULE FileDefs ------------------------------
(* File operations as a function of the host's files.                         *)
(* fs : path -> [type, mode, owner, group, data, parent]                      *)
(*   data  : content token of a file, target of a link, "~" for directories   *)
(*   mode  : octal, "~" for links (which have none)                           *)
(* o  : operation; "~" stands for a setting that was not given                *)
EXTENDS Naturals, Sequences, FiniteSets

Given(v) == v # "~"
Pick(a, b) == IF Given(a) THEN a ELSE b
Absent == [type |-> "absent"]
At(fs, p) == IF p \in DOMAIN fs THEN fs[p] ELSE Absent

Canon(m) == CASE m = "0644" -> "644" [] m = "0755" -> "755" [] m = "00700" -> "700" [] m = "02755" -> "2755" [] m = "00" -> "0" [] m = "0700" -> "700" [] m = "0640" -> "640" [] OTHER -> m
BadModes == {"9", "abc", "99", "", "-1", "20000"}
UserOf(env, u) == IF u \in DOMAIN env.users THEN u ELSE IF u \in DOMAIN env.uids THEN env.uids[u] ELSE "~"
GroupOf(env, g) == IF g \in DOMAIN env.groups THEN g ELSE IF g \in DOMAIN env.gids THEN env.gids[g] ELSE "~"

\* the kind of object an operation manages
TypeOf(o) == CASE o.op = "dir" -> "dir" [] o.op = "link" -> "link" [] OTHER -> "file"

ArgsOk(env, o) ==
  /\ ~o.badarg
  /\ Given(o.owner) => UserOf(env, o.owner) # "~"
  /\ Given(o.group) => GroupOf(env, o.group) # "~"
  /\ o.mode \notin BadModes

Attr(env, dfl, o) ==
  [mode |-> IF TypeOf(o) = "link" THEN "~" ELSE Canon(Pick(o.mode, IF o.op = "dir" THEN dfl.dir_mode ELSE dfl.file_mode)),
   owner |-> IF Given(o.owner) THEN UserOf(env, o.owner) ELSE dfl.owner,
   group |-> IF Given(o.group) THEN GroupOf(env, o.group) ELSE dfl.group]

RECURSIVE Below(_, _)
Below(fs, p) == LET kids == {q \in DOMAIN fs : fs[q].parent = p} IN kids \cup UNION {Below(fs, q) : q \in kids}

\* new data: content for uploads, the old content (or none) for `file`
NewData(fs, o) == CASE o.op = "content" -> o.data
                    [] o.op = "link" -> o.target
                    [] o.op = "file" -> IF o.key \in DOMAIN fs THEN fs[o.key].data ELSE "x"
                    [] OTHER -> "~"

Wanted(fs, env, dfl, o) ==
  LET a == Attr(env, dfl, o) IN
  [type |-> TypeOf(o), mode |-> a.mode, owner |-> a.owner, group |-> a.group, data |-> NewData(fs, o), parent |-> o.parent]

Update(fs, env, dfl, o) ==
  IF o.present THEN [p \in DOMAIN fs \cup {o.key} |-> IF p = o.key THEN Wanted(fs, env, dfl, o) ELSE fs[p]]
  ELSE [p \in DOMAIN fs \ ({o.key} \cup Below(fs, o.key)) |-> fs[p]]

ParentOk(fs, o) == o.parent = "" \/ At(fs, o.parent).type = "dir"

\* what becomes of the operation: invalid | mismatch | noparent | ok
Fate(fs, env, o) ==
  CASE ~ArgsOk(env, o) -> "invalid"
    [] o.parent # "" /\ At(fs, o.parent).type = "file" -> "noparent"      \* cannot even be examined
    [] At(fs, o.key).type \notin {"absent", TypeOf(o)} -> "mismatch"
    [] o.present /\ ~ParentOk(fs, o) -> "noparent"
    [] OTHER -> "ok"

ChangedBy(fs, env, dfl, o) == Update(fs, env, dfl, o) # fs \/ (o.touch /\ o.present)

\* What the reported states must say about the target.  Reported states are sets
\* of <<key, value>>; only the keys describing the host are considered.
Described(o, e) ==
  IF e.type = "absent" THEN {<<"exists", "no">>}
  ELSE {<<"exists", "yes">>, <<"owner", e.owner>>, <<"group", e.group>>}
       \cup (IF TypeOf(o) # "link" THEN {<<"mode", e.mode>>} ELSE {<<"target", e.data>>})
       \cup (IF o.op = "content" THEN {<<"sha512", e.data>>} ELSE {})
Hosty == {"exists", "owner", "group", "mode", "target", "sha512"}

\* Paths are resolved along directories and symbolic links to directories.
Join(d, n) == IF d = "" THEN n ELSE d \o "/" \o n
\* `to` is where the operating system finds the target of a link
Hop(f, k) ==
  LET t == IF k \in DOMAIN f /\ f[k].type = "link" THEN f[k].to ELSE k IN
  IF t \in {"", "?none", "?notdir"} THEN t ELSE IF t \notin DOMAIN f THEN "?none" ELSE IF f[t].type = "dir" THEN t ELSE "?notdir"
RECURSIVE Walk(_, _, _)
Walk(f, d, comps) ==
  IF d \in {"?none", "?notdir"} \/ Len(comps) <= 1 THEN d
  ELSE Walk(f, Hop(f, Join(d, comps[1])), Tail(comps))
=============================================================================
