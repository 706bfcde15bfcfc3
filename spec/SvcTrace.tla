------------------------------ MODULE SvcTrace ------------------------------
(* Validates recorded service operations (C20; dry runs for C14).             *)
EXTENDS SvcDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES c, l, units, verdict
vars == <<c, l, units, verdict>>
Tr == Cases[c].tr
Ev == Tr.events
Init == c \in 1..Len(Cases) /\ l = 1 /\ units = Cases[c].tr.init.units /\ verdict = "run"
Ok(e) == e.res.o = "ok" /\ e.res.success
Broken(sc, n) == n \in DOMAIN Tr.env.units[sc] /\ "broken" \in DOMAIN Tr.env.units[sc][n]
Exists(o) == o.unit \in DOMAIN units[o.scope]
Unit(o) == IF Exists(o) THEN [active |-> units[o.scope][o.unit].active, enabled |-> units[o.scope][o.unit].enabled, broken |-> Broken(o.scope, o.unit)]
           ELSE [active |-> "inactive", enabled |-> "", broken |-> FALSE]
There(e) == \E i \in 1..Len(e.commands) : e.commands[i] = "systemctl"
Wanted(o) == IF o.via = "daemon_reload" THEN {<<"daemon-reload", o.scope, "">>} ELSE {<<a, o.scope, o.unit>> : a \in Acts(Unit(o), o)}
Possible(e, o) == There(e) /\ (o.via = "daemon_reload" \/ (ValidState(o) /\ (Acts(Unit(o), o) = {} \/ (Exists(o) /\ \A a \in Acts(Unit(o), o) : CmdOk(Unit(o), a)))))
Did(e) == {<<e.acts[i][1], e.acts[i][2], e.acts[i][3]>> : i \in 1..Len(e.acts)}
Others(o, g) == \A sc \in DOMAIN units : \A n \in DOMAIN units[sc] : (sc = o.scope /\ n = o.unit) \/ g[sc][n] = units[sc][n]
Failing(e) == CASE Ok(e) -> "failure-reported-as-success"
                [] e.res.o = "ok" /\ e.check -> "failure-not-raised"
                [] e.res.o = "ok" /\ (e.res.changed \/ ~e.res.msg) -> "failed-result-malformed"
                [] OTHER -> "OK"
\* without any service manager the generic operation declares its failure: an operation error, or a failed result without checking
Declared(e, o) == o.via = "system" /\ ~There(e) /\ ~e.hit
Undeclared(e) == IF e.check THEN e.res.o # "raise" \/ e.res.exc # "OperationError" ELSE e.res.o # "ok"
Real(e, o, g) ==
  CASE Possible(e, o) /\ ~Ok(e) -> "needlessly-failed"
    [] ~Possible(e, o) /\ Failing(e) # "OK" -> Failing(e)
    [] Declared(e, o) /\ Undeclared(e) -> "declared-failure-not-delivered"
    [] ~Others(o, g) -> "unrelated-units-touched"
    [] ~Possible(e, o) /\ ~(Did(e) \subseteq Wanted(o)) -> "unnecessary-commands"
    [] ~ValidState(o) /\ e.mods > 0 -> "invalid-request-carried-out"
    [] ~Possible(e, o) -> "OK"
    [] o.via # "daemon_reload" /\ Exists(o) /\ ~Satisfied(Unit(o), g[o.scope][o.unit], o) -> "requested-state-not-reached"
    [] Did(e) # Wanted(o) \/ Len(e.acts) # Cardinality(Wanted(o)) -> "wrong-commands"
    [] e.res.changed # (Wanted(o) # {}) -> "change-report-untruthful"
    [] Wanted(o) = {} /\ e.mods > 0 -> "unnecessary-commands"
    [] OTHER -> "OK"
Dry(e, o, g) ==
  CASE g # units \/ e.mods > 0 -> "dry-run-modified-host"
    [] Declared(e, o) /\ (Ok(e) \/ Undeclared(e)) -> "dry-run-failed"
    [] ~Possible(e, o) -> "OK"
    [] ~Ok(e) -> "dry-run-failed"
    [] e.res.changed # (Wanted(o) # {}) -> "dry-run-mispredicts-change"
    [] OTHER -> "OK"
Paired(e) == l > 1 /\ e.kind = "real" /\ Ev[l - 1].kind = "dry" /\ Ev[l - 1].id = e.id
Same(a, b) == a.res.changed = b.res.changed /\ a.res.initial = b.res.initial /\ a.res.final = b.res.final
Fault(e, o, g) ==
  CASE Failing(e) # "OK" -> Failing(e)
    [] ~Others(o, g) \/ ~(Did(e) \subseteq Wanted(o)) -> "fault-not-contained"
    [] OTHER -> "OK"
Judge(e, o, g) ==
  CASE e.kind = "dry" -> Dry(e, o, g)
    [] Prop = "C14" -> IF Paired(e) /\ Ok(e) /\ Ok(Ev[l - 1]) /\ ~Same(e, Ev[l - 1]) THEN "dry-run-mispredicts-result" ELSE "OK"
    [] e.kind = "fault" /\ e.hit -> Fault(e, o, g)
    [] OTHER -> Real(e, o, g)
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l, units>>
Step ==
  /\ verdict = "run"
  /\ IF Tr.outcome # "ok" THEN Finish("driver-" \o Tr.outcome)
     ELSE IF l > Len(Ev) THEN Finish("OK")
     ELSE LET e == Ev[l]
              v == Judge(e, e.o, e.post.units)
          IN IF v # "OK" THEN Finish(v) ELSE l' = l + 1 /\ units' = e.post.units /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Step]_vars
=============================================================================
