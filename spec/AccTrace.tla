------------------------------ MODULE AccTrace ------------------------------
(* Validates recorded account operations (C18; dry runs for C14).             *)
EXTENDS AccDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES c, l, db, verdict
vars == <<c, l, db, verdict>>
Tr == Cases[c].tr
Ev == Tr.events
SetOf(s) == {s[i] : i \in 1..Len(s)}
Norm(d) == [users |-> [u \in DOMAIN d.users |-> [d.users[u] EXCEPT !.groups = SetOf(@)]], groups |-> d.groups]
Req(o) == IF o.kind = "user" THEN [o EXCEPT !.groups = SetOf(@)] ELSE o
Init == c \in 1..Len(Cases) /\ l = 1 /\ db = Norm(Cases[c].tr.init) /\ verdict = "run"
Ok(e) == e.res.o = "ok" /\ e.res.success
Failing(e) == CASE Ok(e) -> "failure-reported-as-success"
                [] e.res.o = "ok" /\ e.check -> "failure-not-raised"
                [] e.res.o = "ok" /\ (e.res.changed \/ ~e.res.msg) -> "failed-result-malformed"
                [] OTHER -> "OK"
Real(e, o, g) ==
  CASE Possible(db, o) /\ ~Ok(e) -> "needlessly-failed"
    [] ~Possible(db, o) /\ Failing(e) # "OK" -> Failing(e)
    [] ~Possible(db, o) /\ ~Contained(db, g, o) -> "unrelated-accounts-touched"
    [] ~Possible(db, o) -> "OK"
    [] ~Reached(db, g, o) -> "requested-state-not-reached"
    [] e.res.changed # (g # db) -> "change-report-untruthful"
    [] e.extra # <<>> -> "unrequested-side-effects"
    [] ~Pending(db, o) /\ e.mods > 0 -> "modified-although-nothing-to-do"
    [] e.again /\ (e.res.changed \/ e.mods > 0) -> "repeated-run-modifies"
    [] OTHER -> "OK"
Dry(e, o, g) ==
  CASE g # db \/ e.mods > 0 -> "dry-run-modified-host"
    [] ~Possible(db, o) -> "OK"
    [] ~Ok(e) -> "dry-run-failed"
    [] e.res.changed # Pending(db, o) -> "dry-run-mispredicts-change"
    [] OTHER -> "OK"
\* a real run right after a dry run reports the same
Paired(e) == l > 1 /\ e.kind = "real" /\ Ev[l - 1].kind = "dry" /\ Ev[l - 1].id = e.id
Same(a, b) == a.res.changed = b.res.changed /\ a.res.initial = b.res.initial /\ a.res.final = b.res.final
Fault(e, o, g) ==
  CASE e.hit /\ Failing(e) # "OK" -> Failing(e)
    [] ~Contained(db, g, o) -> "fault-not-contained"
    [] OTHER -> "OK"
Judge(e, o, g) ==
  CASE e.kind = "dry" -> Dry(e, o, g)
    [] Prop = "C14" -> IF Paired(e) /\ Ok(e) /\ Ok(Ev[l - 1]) /\ ~Same(e, Ev[l - 1]) THEN "dry-run-mispredicts-result" ELSE "OK"
    [] e.kind = "fault" /\ e.hit -> Fault(e, o, g)
    [] OTHER -> Real(e, o, g)
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l, db>>
Step ==
  /\ verdict = "run"
  /\ IF Tr.outcome # "ok" THEN Finish("driver-" \o Tr.outcome)
     ELSE IF l > Len(Ev) THEN Finish("OK")
     ELSE LET e == Ev[l]
              g == Norm(e.post)
              v == IF e.kind = "ext" THEN "OK" ELSE Judge(e, Req(e.o), g)
          IN IF v # "OK" THEN Finish(v) ELSE l' = l + 1 /\ db' = g /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Step]_vars
=============================================================================
