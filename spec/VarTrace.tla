------------------------------ MODULE VarTrace -----------------------------
(* Validates recorded lookups and rendered templates (C21): one run of the    *)
(* machine per host, each starting from that host's own variables.            *)
EXTENDS VarDefs, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, r, l, m, verdict
vars == <<c, r, l, m, verdict>>
Run == Cases[c].tr.runs[r]
NRuns == Len(Cases[c].tr.runs)
Prog == Cases[c].scn.prog
Differs(e, o) ==
  CASE e.ev # o.ev -> "unexpected-event:" \o o.ev \o "-instead-of-" \o e.ev
    [] e.ev = "look" -> IF e.v = o.v THEN "OK" ELSE IF e.v = Undef THEN "name-found-that-is-not-visible" ELSE IF o.v = Undef THEN "visible-name-not-found" ELSE "wrong-value"
    [] e.ev = "caught" -> "OK"
    [] e.ev = "tmpl" -> CASE ~o.others -> "template-touched-other-files"
                          [] ~e.ok /\ o.ok -> "undefined-name-rendered"
                          [] ~e.ok /\ ~o.untouched -> "failed-template-wrote-something"
                          [] ~e.ok -> "OK"
                          [] ~o.ok -> "template-failed"
                          [] e.texts # o.texts -> "wrong-rendering"
                          [] OTHER -> "OK"
Init == c \in 1..Len(Cases) /\ r = 1 /\ l = 1 /\ verdict = "run" /\ m = IF Cases[c].tr.outcome = "ok" THEN Start(Cases[c].tr.runs[1].env) ELSE [res |-> "none"]
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, r, l, m>>
Next == /\ verdict = "run"
        /\ IF Cases[c].tr.outcome # "ok" \/ NRuns # 2 THEN Finish("no-result")
           ELSE IF m.res # "run"
                THEN IF l <= Len(Run.events) THEN Finish("unexpected-event-after-the-end")
                     ELSE IF m.res # Run.res THEN Finish("wrong-result:" \o Run.res)
                     ELSE IF r = NRuns THEN Finish("OK")
                     ELSE r' = r + 1 /\ l' = 1 /\ m' = Start(Cases[c].tr.runs[r + 1].env) /\ UNCHANGED <<c, verdict>>
           ELSE LET n == Step(Run.env, Prog, m) IN
                IF n.out = <<>> THEN m' = n /\ UNCHANGED <<c, r, l, verdict>>
                ELSE IF l > Len(Run.events) THEN Finish("missing-event:" \o n.out[1].ev)
                ELSE LET v == Differs(n.out[1], Run.events[l]) IN
                     IF v # "OK" THEN Finish(v) ELSE m' = n /\ l' = l + 1 /\ UNCHANGED <<c, r, verdict>>
Spec == Init /\ [][Next]_vars
=============================================================================
