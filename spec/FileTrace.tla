----------------------------- MODULE FileTrace -----------------------------
(* Validates recorded file operations.  Every event carries the complete tree *)
(* after it; PROP selects which of the properties C12..C16 judges it.         *)
EXTENDS FileDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES c, l, fs, pred, verdict
vars == <<c, l, fs, pred, verdict>>
Tr == Cases[c].tr
Env == Tr.env
Dfl == Env.dflt
Ev == Tr.events
NoPred == [valid |-> FALSE]

Init == c \in 1..Len(Cases) /\ l = 1 /\ fs = Cases[c].tr.init /\ pred = NoPred /\ verdict = "run"

---------------------------------------------------------------------------
\* Paths are resolved along directories and symbolic links to directories.
Resolved(f, o) ==
  LET p == Walk(f, "", o.comps) IN
  [x \in DOMAIN o \cup {"key", "parent"} |-> IF x = "parent" THEN p ELSE IF x = "key" THEN Join(p, o.base) ELSE o[x]]

Core(f) == [p \in DOMAIN f |-> [type |-> f[p].type, mode |-> f[p].mode, owner |-> f[p].owner, group |-> f[p].group, data |-> f[p].data, parent |-> f[p].parent]]
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Seen(s) == {x \in Pairs(s) : x[1] \in Hosty}

FateOf(f, o) == IF ~ArgsOk(Env, o) THEN "invalid"
                ELSE IF o.parent = "?notdir" THEN (IF o.present THEN "noparent" ELSE "free")
                ELSE IF o.slash /\ At(f, o.key).type \notin {"absent", "dir"} THEN "free"
                ELSE Fate(Core(f), Env, o)

SameStamps(f, g) == DOMAIN f = DOMAIN g /\ \A p \in DOMAIN f : f[p].st = g[p].st
\* everything but the target (and what is below it) keeps its identity and time stamps;
\* the containing directory's stamps may change along with the target
OthersSame(f, g, o) ==
  LET mine == {o.key} \cup Below(f, o.key) IN
  /\ DOMAIN f \ mine = DOMAIN g \ (mine \cup {o.key})
  /\ \A p \in DOMAIN f \ mine : Core(f)[p] = Core(g)[p] /\ (f[p].st = g[p].st \/ (p = o.parent /\ At(Core(f), o.key) # At(Core(g), o.key)))

Ok(e) == e.res.o = "ok" /\ e.res.success
Failed(e) == e.res.o = "raise" \/ (e.res.o = "ok" /\ ~e.res.success)

---------------------------------------------------------------------------
Exact(f, g, o) == Core(g) = Update(Core(f), Env, Dfl, o)
State(e, o, fate) ==
  CASE e.guard > 0 -> "other-paths-modified"
    [] e.kind # "real" -> "OK"
    \* an operation that cannot be carried out never succeeds and creates, changes or removes nothing
    [] fate \in {"mismatch", "noparent", "invalid"} /\ Ok(e) -> "unachievable-but-successful:" \o o.op
    [] fate \in {"mismatch", "noparent", "invalid"} /\ ~SameStamps(fs, e.post) -> "modified-without-success:" \o o.op
    [] fate # "ok" -> "OK"
    [] ~Ok(e) -> "needlessly-failed:" \o o.op
    [] ~Exact(fs, e.post, o) -> "state-differs:" \o o.op
    [] ~OthersSame(fs, e.post, o) -> "other-paths-modified:" \o o.op
    [] o.touch /\ o.present /\ ~e.post[o.key].fresh -> "not-touched:" \o o.op
    [] ~o.touch /\ o.present /\ o.op \in {"dir", "file"} /\ o.key \in DOMAIN fs /\ e.post[o.key].mt # fs[o.key].mt -> "needlessly-touched:" \o o.op
    [] OTHER -> "OK"

Truth(e, o, fate) ==
  CASE e.kind # "real" \/ ~Ok(e) \/ fate # "ok" -> "OK"
    [] e.res.changed # ((Core(fs) # Core(e.post)) \/ (o.touch /\ o.present)) -> "change-report-untruthful:" \o o.op
    [] ~e.res.changed /\ ~SameStamps(fs, e.post) -> "unreported-modification:" \o o.op
    [] e.again /\ e.res.changed /\ ~o.touch -> "repeated-run-reports-change:" \o o.op
    [] Seen(e.res.initial) # Described(o, At(Core(fs), o.key)) -> "initial-state-untruthful:" \o o.op
    [] Seen(e.res.final) # Described(o, At(Core(e.post), o.key)) -> "final-state-untruthful:" \o o.op
    [] OTHER -> "OK"

Dry(e, o, fate) ==
  CASE e.kind = "dry" /\ (e.guard > 0 \/ ~SameStamps(fs, e.post)) -> "dry-run-modified-host:" \o o.op
    [] e.kind = "dry" /\ fate = "ok" /\ ~Ok(e) -> "dry-run-failed:" \o o.op
    [] e.kind = "dry" /\ fate = "ok" /\ e.res.changed # ChangedBy(Core(fs), Env, Dfl, o) -> "dry-run-mispredicts-change:" \o o.op
    [] e.kind = "dry" /\ fate = "ok" /\ Seen(e.res.initial) # Described(o, At(Core(fs), o.key)) -> "dry-run-initial-state:" \o o.op
    [] e.kind = "dry" /\ fate = "ok" /\ Seen(e.res.final) # Described(o, At(Update(Core(fs), Env, Dfl, o), o.key)) -> "dry-run-final-state:" \o o.op
    [] e.kind = "dry" /\ fate \in {"invalid", "mismatch"} /\ ~Failed(e) -> "dry-run-hides-failure:" \o o.op
    [] e.kind = "real" /\ pred.valid /\ pred.o = e.o /\ Ok(e) /\ pred.res # [changed |-> e.res.changed, initial |-> Pairs(e.res.initial), final |-> Pairs(e.res.final)] -> "dry-run-differs-from-real-run:" \o o.op
    [] OTHER -> "OK"

Fail(e, o, fate) ==
  CASE fate \notin {"invalid", "mismatch"} /\ ~(fate = "noparent" /\ e.kind = "real") -> (IF fate = "ok" /\ ~Ok(e) THEN "OK" ELSE "OK")
    [] e.res.o = "none" -> "no-result:" \o o.op
    [] Ok(e) -> "failure-reported-as-success:" \o o.op
    [] e.res.o = "ok" /\ e.check -> "failure-not-raised:" \o o.op
    [] e.res.o = "ok" /\ (e.res.changed \/ ~e.res.msg) -> "failed-result-incomplete:" \o o.op
    [] fate = "mismatch" /\ e.check /\ e.res.type # "OperationError" -> "wrong-error:" \o o.op
    [] fate = "mismatch" /\ ~e.check /\ e.res.o # "ok" -> "raised-although-unchecked:" \o o.op
    [] e.guard > 0 \/ ~SameStamps(fs, e.post) -> "touched-although-failed:" \o o.op
    [] OTHER -> "OK"

\* the target after a fault: what it was, gone or created, with old or new data
Partial(f, g, o) ==
  LET a == At(Core(f), o.key) b == At(Core(g), o.key) w == Wanted(Core(f), Env, Dfl, o) IN
  /\ b.type \in (IF o.present THEN {a.type, TypeOf(o)} ELSE {a.type, "absent"})
  /\ b.type # "absent" => b.data \in {w.data} \cup (IF a.type = "absent" THEN {} ELSE {a.data})
Contained(e, o, fate) ==
  CASE e.guard > 0 -> "other-paths-modified"
    [] e.kind = "fault" /\ e.hit /\ ~Failed(e) -> "fault-reported-as-success:" \o o.op
    [] e.kind = "fault" /\ e.hit /\ e.res.o = "ok" /\ e.check -> "fault-not-raised:" \o o.op
    [] e.kind = "fault" /\ fate \in {"ok", "noparent"} /\ ~OthersSame(fs, e.post, o) -> "fault-not-contained:" \o o.op
    [] e.kind = "fault" /\ fate = "ok" /\ ~Partial(fs, e.post, o) -> "fault-damages-target:" \o o.op
    [] e.kind = "fault" /\ fate \in {"invalid", "mismatch"} /\ ~SameStamps(fs, e.post) -> "touched-although-failed:" \o o.op
    [] e.kind = "real" /\ fate = "ok" /\ ~Ok(e) -> "not-recovered:" \o o.op
    [] e.kind = "real" /\ fate = "ok" /\ ~Exact(fs, e.post, o) -> "recovered-state-differs:" \o o.op
    [] OTHER -> "OK"

Judge(e) ==
  LET o == Resolved(fs, e.o) fate == FateOf(fs, o) IN
  CASE Prop = "C12" -> State(e, o, fate)
    [] Prop = "C13" -> Truth(e, o, fate)
    [] Prop = "C14" -> Dry(e, o, fate)
    [] Prop = "C15" -> Fail(e, o, fate)
    [] Prop = "C16" -> Contained(e, o, fate)
    [] OTHER -> "unknown-property"

Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l, fs, pred>>
Step ==
  /\ verdict = "run"
  /\ IF Tr.outcome # "ok" THEN Finish("driver-" \o Tr.outcome)
     ELSE IF l > Len(Ev) THEN Finish("OK")
     ELSE LET e == Ev[l]
              v == IF e.kind = "ext" THEN "OK" ELSE Judge(e)
          IN IF v # "OK" THEN Finish(v)
             ELSE /\ l' = l + 1 /\ fs' = e.post
                  /\ pred' = (IF e.kind = "dry" /\ Ok(e) THEN [valid |-> TRUE, o |-> e.o, res |-> [changed |-> e.res.changed, initial |-> Pairs(e.res.initial), final |-> Pairs(e.res.final)]] ELSE NoPred)
                  /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Step]_vars
=============================================================================
