----------------------------- MODULE LineTrace -----------------------------
(* Validates recorded line operations (C17; dry runs for C14, failures C15).  *)
EXTENDS FileDefs, LineDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES c, l, fs, pred, verdict
vars == <<c, l, fs, pred, verdict>>
Tr == Cases[c].tr
Dfl == Tr.env.dflt
Ev == Tr.events
NoPred == [valid |-> FALSE]
Init == c \in 1..Len(Cases) /\ l = 1 /\ fs = Cases[c].tr.init /\ pred = NoPred /\ verdict = "run"

Core(f) == [p \in DOMAIN f |-> [type |-> f[p].type, mode |-> f[p].mode, owner |-> f[p].owner, group |-> f[p].group, data |-> f[p].data]]
Attrs(e) == [mode |-> e.mode, owner |-> e.owner, group |-> e.group]
DflAttrs == [mode |-> Canon(Dfl.file_mode), owner |-> Dfl.owner, group |-> Dfl.group]
SameStamps(f, g) == DOMAIN f = DOMAIN g /\ \A p \in DOMAIN f : f[p].st = g[p].st
Ok(e) == e.res.o = "ok" /\ e.res.success
Failed(e) == ~Ok(e) /\ e.res.o # "none"
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
YN(b) == IF b THEN "yes" ELSE "no"

LFate(o) == CASE o.badarg -> "invalid"
             [] At(fs, o.key).type \notin {"absent", "file"} -> "mismatch"
             [] o.present /\ o.parent # "" /\ At(fs, o.parent).type # "dir" -> "noparent"
             [] o.parent # "" /\ At(fs, o.parent).type \notin {"dir", "absent"} -> "free"
             [] o.backup # "~" /\ o.bakdir # "" /\ At(fs, o.bakdir).type # "dir" /\ o.key \in DOMAIN fs /\ LineChanges(o, Ev[l].pre) -> "nobackup"
             [] OTHER -> "ok"
\* paths that are backups made by this operation
Backups(o, g) == IF o.backup = "~" THEN {} ELSE IF o.backup = "auto" THEN {p \in DOMAIN g : g[p].bakof = o.key /\ (p \notin DOMAIN fs \/ fs[p].st # g[p].st)} ELSE {o.bakkey} \cap DOMAIN g
Mine(o, g) == {o.key} \cup Backups(o, g)
Others2(o, g) == /\ DOMAIN fs \ Mine(o, g) = DOMAIN g \ Mine(o, g)
                 /\ \A p \in DOMAIN fs \ Mine(o, g) : fs[p].st = g[p].st \/ (p \in {o.parent, o.bakdir} /\ Core(fs)[p] = Core(g)[p])
\* a backup is only due when an existing file is modified
BackupOk(o, g) ==
  IF o.backup = "~" \/ ~LineChanges(o, Ev[l].pre) \/ o.key \notin DOMAIN fs THEN \A p \in Backups(o, g) : p \in DOMAIN fs /\ fs[p].st = g[p].st
  ELSE Cardinality(Backups(o, g)) = 1 /\ \A p \in Backups(o, g) : Core(g)[p] = Core(fs)[o.key]

State(e, o) ==
  LET g == e.post IN
  CASE LFate(o) = "free" -> IF SameStamps(fs, g) THEN "OK" ELSE "untouchable-path-touched"
    [] LFate(o) # "ok" -> IF Ok(e) THEN "failure-reported-as-success"
                         ELSE IF e.res.o = "ok" /\ e.check THEN "failure-not-raised"
                         ELSE IF ~SameStamps(fs, g) THEN "touched-although-failed" ELSE "OK"
    [] ~Ok(e) -> "needlessly-failed"
    [] o.key \notin DOMAIN g -> IF o.key \in DOMAIN fs \/ o.present THEN "file-missing" ELSE IF SameStamps(fs, g) /\ ~e.res.changed THEN "OK" ELSE "untruthful"
    [] o.key \notin DOMAIN fs /\ ~o.present -> "file-created"
    [] ~LineResult(o, e.pre, e.now) -> "wrong-content"
    [] Attrs(g[o.key]) # (IF o.key \in DOMAIN fs THEN Attrs(fs[o.key]) ELSE DflAttrs) -> "attributes-changed"
    [] ~LineChanges(o, e.pre) /\ ~SameStamps(fs, g) -> "needless-modification"
    [] ~Others2(o, g) -> "other-paths-modified"
    [] ~BackupOk(o, g) -> "wrong-backup"
    [] e.res.changed # LineChanges(o, e.pre) -> "change-report-untruthful"
    [] e.again /\ (o.lm \/ ~o.rx \/ ~o.present) /\ e.res.changed -> "repeated-run-reports-change"
    [] Pairs(e.res.initial) # {<<"line_present", YN(Has(o, e.pre))>>} \/ Pairs(e.res.final) # {<<"line_present", YN(o.present)>>} -> "reported-states-untruthful"
    [] OTHER -> "OK"
Dry(e, o) ==
  CASE e.guard > 0 \/ ~SameStamps(fs, e.post) -> "dry-run-modified-host"
    [] LFate(o) \in {"invalid", "mismatch"} /\ ~Failed(e) -> "dry-run-hides-failure"
    [] LFate(o) # "ok" -> "OK"
    [] ~Ok(e) -> "dry-run-failed"
    [] e.res.changed # LineChanges(o, e.pre) -> "dry-run-mispredicts-change"
    [] Pairs(e.res.initial) # {<<"line_present", YN(Has(o, e.pre))>>} \/ Pairs(e.res.final) # {<<"line_present", YN(o.present)>>} -> "dry-run-states"
    [] OTHER -> "OK"
Fault(e, o) ==
  LET g == e.post IN
  CASE e.hit /\ ~Failed(e) -> "fault-reported-as-success"
    [] ~Others2(o, g) -> "fault-not-contained"
    [] o.key \in DOMAIN fs /\ o.key \notin DOMAIN g -> "file-lost"
    [] LFate(o) = "ok" /\ o.key \in DOMAIN g /\ ~(Core(g)[o.key] = At(Core(fs), o.key) \/ LineResult(o, e.pre, e.now)) -> "content-damaged"
    [] OTHER -> "OK"
Judge(e) ==
  LET o == e.o IN
  CASE e.guard > 0 -> "other-paths-modified"
    [] e.kind = "dry" -> Dry(e, o)
    [] Prop = "C14" -> "OK"
    [] e.kind = "fault" -> Fault(e, o)
    [] OTHER -> State(e, o)
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l, fs, pred>>
Step ==
  /\ verdict = "run"
  /\ IF Tr.outcome # "ok" THEN Finish("driver-" \o Tr.outcome)
     ELSE IF l > Len(Ev) THEN Finish("OK")
     ELSE LET e == Ev[l] v == IF e.kind = "ext" THEN "OK" ELSE Judge(e)
          IN IF v # "OK" THEN Finish(v) ELSE l' = l + 1 /\ fs' = e.post /\ UNCHANGED <<c, pred, verdict>>
Spec == Init /\ [][Step]_vars
=============================================================================
