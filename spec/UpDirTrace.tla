----------------------------- MODULE UpDirTrace -----------------------------
(* Validates recorded directory uploads (C22; dry runs for C14).              *)
EXTENDS FileDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES c, l, fs, verdict
vars == <<c, l, fs, verdict>>
Tr == Cases[c].tr
Env == Tr.env
Dfl == Env.dflt
Ev == Tr.events
Init == c \in 1..Len(Cases) /\ l = 1 /\ fs = Cases[c].tr.init /\ verdict = "run"

Core(f) == [p \in DOMAIN f |-> [type |-> f[p].type, mode |-> f[p].mode, owner |-> f[p].owner, group |-> f[p].group, data |-> f[p].data, parent |-> f[p].parent]]
SameStamps(f, g) == DOMAIN f = DOMAIN g /\ \A p \in DOMAIN f : f[p].st = g[p].st
Ok(e) == e.res.o = "ok" /\ e.res.success
Pairs(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Seen(s) == {x \in Pairs(s) : x[1] \in Hosty}

\* where the directory goes: inside of the destination if that ends in a slash
BaseComps(o) == IF o.slash THEN Append(o.dest, o.srcname) ELSE o.dest
BaseParent(o) == Walk(fs, "", BaseComps(o))
Base(o) == LET b == BaseComps(o) IN Join(BaseParent(o), b[Len(b)])
RECURSIVE JoinAll(_, _)
JoinAll(d, comps) == IF comps = <<>> THEN d ELSE JoinAll(Join(d, comps[1]), Tail(comps))
Mine(o) == {i \in 1..Len(o.entries) : o.entries[i].type \in {"dir", "file"}}
Keys(o) == {Base(o)} \cup {JoinAll(Base(o), o.entries[i].comps) : i \in Mine(o)}
EntryOf(o, k) == CHOOSE i \in Mine(o) : JoinAll(Base(o), o.entries[i].comps) = k
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* the nested operation for a key
Op(o, k) ==
  LET isbase == k = Base(o)
      x == IF isbase THEN [type |-> "dir", data |-> "~", comps |-> <<"?">>] ELSE o.entries[EntryOf(o, k)]
  IN [op |-> IF x.type = "dir" THEN "dir" ELSE "content", key |-> k, parent |-> IF isbase THEN BaseParent(o) ELSE JoinAll(Base(o), Front(x.comps)),
      present |-> TRUE, touch |-> FALSE, mode |-> IF x.type = "dir" THEN o.dir_mode ELSE o.file_mode, owner |-> o.owner, group |-> o.group, target |-> "~", data |-> x.data, badarg |-> o.badarg]
W(o, k) == Wanted(Core(fs), Env, Dfl, Op(o, k))
Mirror(o) == [p \in DOMAIN fs \cup Keys(o) |-> IF p \in Keys(o) THEN W(o, p) ELSE Core(fs)[p]]
Mism(o) == {k \in Keys(o) : At(fs, k).type \notin {"absent", TypeOf(Op(o, k))}}
UFate(o) == IF ~ArgsOk(Env, Op(o, Base(o))) \/ o.file_mode \in BadModes THEN "invalid"
            ELSE IF BaseParent(o) \in {"?none", "?notdir"} THEN "noparent"
            ELSE IF Mism(o) # {} THEN "mismatch" ELSE "ok"
Unrelated(o, g) ==
  /\ DOMAIN fs \ Keys(o) = DOMAIN g \ Keys(o)
  /\ \A p \in DOMAIN fs \ Keys(o) : Core(fs)[p] = Core(g)[p] /\ (fs[p].st = g[p].st \/ p = BaseParent(o))
Half(o, g) == \A k \in Keys(o) : At(Core(g), k) = At(Core(fs), k) \/ (k \in DOMAIN g /\ g[k].type = TypeOf(Op(o, k)) /\ g[k].data \in {W(o, k).data} \cup (IF k \in DOMAIN fs THEN {fs[k].data} ELSE {}))

\* reported states: one entry for everything uploaded
\* (under the path as given, which may lead through a link)
Spelled(o, k) == LET b == JoinAll("", BaseComps(o)) IN IF k = Base(o) THEN b ELSE JoinAll(b, o.entries[EntryOf(o, k)].comps)
Report(o, r, g) == /\ DOMAIN r = {Spelled(o, k) : k \in Keys(o)}
                   /\ \A k \in Keys(o) : Seen(r[Spelled(o, k)]) = Described(Op(o, k), At(g, k))
State(e, o) ==
  LET g == e.post IN
  CASE UFate(o) = "ok" /\ ~Ok(e) -> "needlessly-failed"
    [] UFate(o) = "ok" /\ Core(g) # Mirror(o) -> "tree-not-mirrored"
    [] UFate(o) = "ok" /\ ~Unrelated(o, g) -> "unrelated-paths-touched"
    [] UFate(o) = "ok" /\ e.res.changed # (Core(g) # Core(fs)) -> "change-report-untruthful"
    [] UFate(o) = "ok" /\ ~e.res.changed /\ ~SameStamps(fs, g) -> "unreported-modification"
    [] UFate(o) = "ok" /\ e.again /\ e.res.changed -> "repeated-run-reports-change"
    [] UFate(o) = "ok" /\ (~Report(o, e.res.initial, Core(fs)) \/ ~Report(o, e.res.final, Core(g))) -> "reported-states-untruthful"
    [] UFate(o) = "ok" -> "OK"
    [] Ok(e) -> "failure-reported-as-success"
    [] e.res.o = "ok" /\ e.check -> "failure-not-raised"
    [] UFate(o) \in {"invalid", "noparent"} /\ ~SameStamps(fs, g) -> "touched-although-failed"
    [] UFate(o) = "mismatch" /\ ~Unrelated(o, g) -> "unrelated-paths-touched"
    [] \E k \in Mism(o) : k \notin DOMAIN g \/ (g[k].st # fs[k].st /\ Core(g)[k] # Core(fs)[k]) -> "mismatching-target-touched"
    [] OTHER -> "OK"
Dry(e, o) ==
  CASE ~SameStamps(fs, e.post) -> "dry-run-modified-host"
    [] UFate(o) \in {"invalid", "mismatch"} /\ Ok(e) -> "dry-run-hides-failure"
    [] UFate(o) # "ok" -> "OK"
    [] ~Ok(e) -> "dry-run-failed"
    [] e.res.changed # (Mirror(o) # Core(fs)) -> "dry-run-mispredicts-change"
    [] ~Report(o, e.res.initial, Core(fs)) \/ ~Report(o, e.res.final, Mirror(o)) -> "dry-run-states"
    [] OTHER -> "OK"
Fault(e, o) ==
  CASE e.hit /\ Ok(e) -> "fault-reported-as-success"
    [] UFate(o) \in {"ok", "mismatch"} /\ ~Unrelated(o, e.post) -> "fault-not-contained"
    [] UFate(o) = "ok" /\ ~Half(o, e.post) -> "fault-damages-target"
    [] OTHER -> "OK"
Judge(e) ==
  CASE e.guard > 0 -> "other-paths-modified"
    [] e.kind = "dry" -> Dry(e, e.o)
    [] Prop = "C14" -> "OK"
    [] e.kind = "fault" -> Fault(e, e.o)
    [] OTHER -> State(e, e.o)
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l, fs>>
Step ==
  /\ verdict = "run"
  /\ IF Tr.outcome # "ok" THEN Finish("driver-" \o Tr.outcome)
     ELSE IF l > Len(Ev) THEN Finish("OK")
     ELSE LET e == Ev[l] v == IF e.kind = "ext" THEN "OK" ELSE Judge(e)
          IN IF v # "OK" THEN Finish(v) ELSE l' = l + 1 /\ fs' = e.post /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Step]_vars
=============================================================================
