------------------------------ MODULE PkgTrace ------------------------------
(* Validates recorded package operations (C19; dry runs for C14).             *)
EXTENDS PkgDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES c, l, inst, world, verdict
vars == <<c, l, inst, world, verdict>>
Tr == Cases[c].tr
Ev == Tr.events
SetOf(s) == {s[i] : i \in 1..Len(s)}
Avail == SetOf(Tr.env.avail)
Req(o) == [via |-> o.via, packages |-> SetOf(o.packages), islist |-> o.islist, present |-> o.present]
Init == c \in 1..Len(Cases) /\ l = 1 /\ inst = SetOf(Cases[c].tr.init.installed) /\ world = SetOf(Cases[c].tr.init.world) /\ verdict = "run"
Ok(e) == e.res.o = "ok" /\ e.res.success
Can(e, o) == Possible(inst, Avail, SetOf(e.commands), o)
Failing(e) == CASE Ok(e) -> "failure-reported-as-success"
                [] e.res.o = "ok" /\ e.check -> "failure-not-raised"
                [] e.res.o = "ok" /\ (e.res.changed \/ ~e.res.msg) -> "failed-result-malformed"
                [] OTHER -> "OK"
\* without any package manager the generic operation declares its failure: an operation error, or a failed result without checking
Declared(e, o) == e.o.via = "system" /\ o.islist /\ ~Available(SetOf(e.commands), "system") /\ ~e.hit
Undeclared(e) == IF e.check THEN e.res.o # "raise" \/ e.res.exc # "OperationError" ELSE e.res.o # "ok"
Acts(e) == {<<e.acts[i][1], e.acts[i][2]>> : i \in 1..Len(e.acts)}
Expected(o) == {<<Verb(o), p>> : p \in Needed(inst, o)}
\* every invocation that changes something carries the given options
OptsPassed(e) == \A i \in 1..Len(e.modcalls) : SetOf(e.o.opts) \subseteq SetOf(e.modcalls[i])
World(e, o, g) == e.o.via = "portage" => g = (IF ~o.present THEN world \ o.packages ELSE IF e.o.oneshot THEN world ELSE world \cup Needed(inst, o))
Real(e, o, g, w) ==
  CASE Can(e, o) /\ ~Ok(e) -> "needlessly-failed"
    [] ~Can(e, o) /\ Failing(e) # "OK" -> Failing(e)
    [] Declared(e, o) /\ Undeclared(e) -> "declared-failure-not-delivered"
    [] ~Can(e, o) /\ ~(Between(inst, g, o) /\ Acts(e) \subseteq Expected(o)) -> "unrelated-packages-touched"
    [] ~Can(e, o) -> "OK"
    [] g # Want(inst, o) -> "requested-packages-wrong"
    [] Acts(e) # Expected(o) \/ Len(e.acts) # Cardinality(Expected(o)) -> "unnecessary-invocations"
    [] Needed(inst, o) = {} /\ e.mods > 0 -> "executed-although-nothing-missing"
    [] e.res.changed # (g # inst) -> "change-report-untruthful"
    [] ~OptsPassed(e) -> "options-not-passed"
    [] ~World(e, o, w) -> "world-file-wrong"
    [] OTHER -> "OK"
Dry(e, o, g) ==
  CASE g # inst \/ e.mods > 0 -> "dry-run-modified-host"
    [] Declared(e, o) /\ (Ok(e) \/ Undeclared(e)) -> "dry-run-failed"
    [] ~Can(e, o) -> "OK"
    [] ~Ok(e) -> "dry-run-failed"
    [] e.res.changed # (Needed(inst, o) # {}) -> "dry-run-mispredicts-change"
    [] OTHER -> "OK"
Paired(e) == l > 1 /\ e.kind = "real" /\ Ev[l - 1].kind = "dry" /\ Ev[l - 1].id = e.id
Same(a, b) == a.res.changed = b.res.changed /\ a.res.initial = b.res.initial /\ a.res.final = b.res.final
Fault(e, o, g) ==
  CASE Failing(e) # "OK" -> Failing(e)
    [] ~(Between(inst, g, o) /\ Acts(e) \subseteq Expected(o)) -> "fault-not-contained"
    [] OTHER -> "OK"
Judge(e, o, g, w) ==
  CASE e.kind = "dry" -> Dry(e, o, g)
    [] Prop = "C14" -> IF Paired(e) /\ Ok(e) /\ Ok(Ev[l - 1]) /\ ~Same(e, Ev[l - 1]) THEN "dry-run-mispredicts-result" ELSE "OK"
    [] e.kind = "fault" /\ e.hit -> Fault(e, o, g)
    [] OTHER -> Real(e, o, g, w)
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l, inst, world>>
Step ==
  /\ verdict = "run"
  /\ IF Tr.outcome # "ok" THEN Finish("driver-" \o Tr.outcome)
     ELSE IF l > Len(Ev) THEN Finish("OK")
     ELSE LET e == Ev[l]
              g == SetOf(e.post.installed) w == SetOf(e.post.world)
              v == Judge(e, Req(e.o), g, w)
          IN IF v # "OK" THEN Finish(v) ELSE l' = l + 1 /\ inst' = g /\ world' = w /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Step]_vars
=============================================================================
