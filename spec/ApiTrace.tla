------------------------------ MODULE ApiTrace ------------------------------
(* Validates recorded calls of user defined operations (C15), and what the    *)
(* state tracking tells them (C13).                                           *)
EXTENDS ApiDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES c, l, verdict
vars == <<c, l, verdict>>
Tr == Cases[c].tr
Ev == Tr.events
Init == c \in 1..Len(Cases) /\ l = 1 /\ verdict = "run"
Plain(x) == [k |-> x.k, exc |-> x.exc, changed |-> x.changed]
Call(e) ==
  LET want == Log(e.t) got == [i \in 1..Len(e.log) |-> Plain(e.log[i])] IN
  CASE Len(want) # Len(got) -> "wrong-calls-made"
    [] \E i \in 1..Len(got) : want[i].k # "ok" /\ got[i].k = "ok" -> "failure-reported-as-success"
    [] \E i \in 1..Len(got) : want[i].k = "raise" /\ got[i].k = "failed" -> "failure-not-raised"
    [] \E i \in 1..Len(got) : want[i].k = "failed" /\ got[i].k = "raise" -> "raised-although-disabled"
    [] \E i \in 1..Len(got) : want[i].k = "ok" /\ got[i].k # "ok" -> "needlessly-failed"
    [] \E i \in 1..Len(got) : want[i].exc # got[i].exc -> "different-error-raised"
    [] \E i \in 1..Len(got) : want[i].changed # got[i].changed -> "change-report-untruthful"
    [] \E i \in 1..Len(got) : got[i].k = "failed" /\ (IF want[i].msg = "*" THEN e.log[i].msg \in {"", "~"} ELSE e.log[i].msg # want[i].msg) -> "failure-message-lost"
    [] OTHER -> "OK"
\* state tracking: initial and final are lists of <<key, value>>
Val(s, k) == LET i == CHOOSE i \in 1..Len(s) : s[i][1] = k IN s[i][2]
Keys(s) == {s[i][1] : i \in 1..Len(s)}
Probe(e) ==
  LET same == \A k \in Keys(e.initial) : Val(e.initial, k) = Val(e.final, k)
      sameig == \A k \in Keys(e.initial) : Val(e.final, k) = "~" \/ Val(e.initial, k) = Val(e.final, k)
  IN CASE e.unchanged # same -> "unchanged-wrong"
       [] e.unchanged_ignore # sameig -> "unchanged-ignoring-none-wrong"
       [] \E i \in 1..Len(e.keys) : e.keys[i][2] # (Val(e.initial, e.keys[i][1]) # Val(e.final, e.keys[i][1])) -> "changed-wrong"
       [] e.changed # ~same -> "change-report-untruthful"
       [] OTHER -> "OK"
Judge(e) == IF e.kind = "probe" THEN IF Prop = "C13" THEN Probe(e) ELSE "OK" ELSE IF Prop = "C15" THEN Call(e) ELSE "OK"
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l>>
Step ==
  /\ verdict = "run"
  /\ IF Tr.outcome # "ok" THEN Finish("driver-" \o Tr.outcome)
     ELSE IF l > Len(Ev) THEN Finish("OK")
     ELSE LET v == Judge(Ev[l]) IN IF v # "OK" THEN Finish(v) ELSE l' = l + 1 /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Step]_vars
=============================================================================
