----------------------------- MODULE MainTrace -----------------------------
(* Validates recorded runs of the command line program (C05).                 *)
EXTENDS Main, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
tvars == <<vars, c, verdict>>
Ev == Cases[c].tr.events
TInit == /\ c \in 1..Len(Cases) /\ verdict = "run"
         /\ hosts = Cases[c].scn.hosts /\ sel = Cases[c].scn.sel /\ fate = Cases[c].scn.fate
         /\ plan = <<>> /\ pos = 1 /\ open = {} /\ log = <<>> /\ code = "~" /\ pc = "select"
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<vars, c>>
Name(e) == e[1] \o ":" \o e[2]
NewLog == Len(log') > Len(log)
\* every step that the model logs must be the next recorded event
TNext ==
  /\ verdict = "run"
  /\ IF pc = "done" THEN
       Finish(IF Len(Ev) > Len(log) THEN "unexpected-event:" \o Ev[Len(log) + 1].ev
              ELSE IF (Cases[c].tr.rc = 0) # (code = "success") THEN "wrong-exit-status"
              ELSE IF Cases[c].tr.left # 0 THEN "process-left-behind"
              ELSE "OK")
     ELSE IF Len(log) > 0 /\ Len(Ev) < Len(log) THEN Finish("missing-event:" \o Name(log[Len(log)]))
     ELSE IF Len(log) > 0 /\ ~(Ev[Len(log)].ev = log[Len(log)][1] /\ Ev[Len(log)].host = log[Len(log)][2]) THEN Finish("wrong-event:" \o Ev[Len(log)].ev \o ":" \o Ev[Len(log)].host \o "-instead-of-" \o Name(log[Len(log)]))
     ELSE Next /\ UNCHANGED <<c, verdict>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
