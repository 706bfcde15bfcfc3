---------------------------- MODULE TunnelTrace ----------------------------
(* Validates recorded sessions: request sequences (C06), cut streams (C07)    *)
(* and life cycles (C09).                                                     *)
EXTENDS TunnelDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, store, dead, life, verdict
vars == <<c, l, store, dead, life, verdict>>

Kind == Cases[c].scn.kind
Tr == Cases[c].tr
Ev == Tr.events

\* the directory every request sequence starts with
F0(t, tk) == [type |-> t, tok |-> tk, size |-> 0, sha |-> "~", mode |-> "~", owner |-> "root", group |-> "root"]
Prepared == [sub |-> F0("dir", "~"), lnk |-> F0("link", "f1"), dang |-> F0("link", "gone"), loop |-> F0("link", "loop"),
             ff |-> F0("fifo", "~"), sk |-> F0("sock", "~"),
             own |-> [F0("file", "x") EXCEPT !.sha = "h64-001d686db504e20c792eaa07", !.mode = "4711", !.owner = "77777", !.group = "88888"],
             neg |-> [type |-> "file", tok |-> "x6f6c64", size |-> 3, sha |-> "h64-3ac4bd034e0a12dfdafe241e", mode |-> "640", owner |-> "root", group |-> "root", mtime |-> "-5000000000"]]

Init == /\ c \in 1..Len(Cases) /\ l = 1 /\ store = Prepared /\ dead = FALSE
        /\ life = [open |-> FALSE, alive |-> 0] /\ verdict = "run"

Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l, store, dead, life>>

---------------------------------------------------------------------------
\* C06
SeqStep(e) ==
  IF dead THEN
     IF e.res.o = "err" \/ (e.req.bad /\ e.res.o = "none") THEN l' = l + 1 /\ UNCHANGED <<c, store, dead, life, verdict>>
     ELSE Finish("answer-from-dead-connection:" \o e.req.op)
  ELSE IF ~AnswerOk(store, Tr.env, e.req, e.res, e.fs) THEN Finish("wrong-answer:" \o e.req.op)
  ELSE /\ store' = Effect(store, Tr.env, e.req)
       /\ dead' = (e.req.op = "die")
       /\ l' = l + 1 /\ UNCHANGED <<c, life, verdict>>

FilesOf == {p \in DOMAIN store : store[p].type = "file"}
ObsFiles == {<<Tr.files[i].path, Tr.files[i].tok>> : i \in 1..Len(Tr.files)}
SeqEnd == IF Tr.outcome # "ok" THEN "session-failed"
          ELSE IF ObsFiles # {<<p, store[p].tok>> : p \in FilesOf} THEN "remote-files-differ"
          ELSE "OK"

---------------------------------------------------------------------------
\* C07: a response is usable iff it was delivered completely
CutResp(e) ==
  CASE e.open = "err" /\ e.cut >= e.ack -> "open-failed-with-complete-handshake"
    [] e.open = "ok" /\ e.cut < e.ack -> "opened-with-incomplete-handshake"
    [] e.open = "err" -> "OK"
    [] e.cut < e.total /\ e.first # "err" -> "truncated-response-accepted"
    [] e.cut = e.total /\ ~e.same -> "complete-response-not-delivered"
    [] e.second # "err" -> "later-request-succeeded-on-broken-connection"
    [] OTHER -> "OK"
CutReq(e) ==
  CASE e.ended # "yes" -> "dispatcher-hangs-on-broken-stream"
    [] e.cut < e.total /\ e.effect -> "partial-request-executed"
    [] e.cut = e.total /\ ~e.effect -> "complete-request-not-executed"
    [] OTHER -> "OK"
CutStep(v) == IF v # "OK" THEN Finish(v) ELSE l' = l + 1 /\ UNCHANGED <<c, store, dead, life, verdict>>

---------------------------------------------------------------------------
\* C09: life = [open: inside the context, alive: dispatcher processes expected]
Usable(m) == m \in {"ok", "slow"}
LifeStep(e) ==
  LET bad ==
    CASE e.ev = "open" /\ Usable(e.mode) /\ e.res # "ok" -> "open-failed"
      [] e.ev = "open" /\ ~Usable(e.mode) /\ e.res = "ok" -> "open-succeeded-without-remote"
      [] e.ev = "open" /\ e.res = "ok" /\ ~(e.exposed /\ e.alive = 1) -> "not-exposed-while-open"
      [] e.ev = "open" /\ e.res = "err" /\ e.exposed -> "exposed-after-failed-open"
      [] e.ev = "open" /\ e.res = "err" /\ e.alive # 0 -> "process-left-behind-after-failed-open"
      [] e.ev \in {"use", "remoteerr", "kill"} /\ ~e.exposed -> "not-exposed-inside-context"
      [] e.ev = "use" /\ ~dead /\ e.res # "ok" -> "request-failed-on-open-connection"
      [] e.ev = "use" /\ dead /\ e.res # "err" -> "request-succeeded-without-remote"
      [] e.ev = "remoteerr" /\ e.res # "err" -> "remote-error-not-raised"
      [] e.ev = "leave" /\ e.exposed -> "exposed-after-leaving"
      [] e.ev = "leave" /\ e.alive # 0 -> "process-left-behind"
      [] e.ev = "leave" /\ e.res # "ok" /\ ~dead -> "closing-healthy-connection-failed"
      [] e.ev = "useclosed" /\ e.res # "err" -> "request-answered-after-leaving"
      [] e.ev = "useclosed" /\ e.exposed -> "exposed-after-leaving"
      [] OTHER -> "OK"
  IN IF bad # "OK" THEN Finish(bad)
     ELSE /\ dead' = (IF e.ev = "kill" THEN TRUE ELSE IF e.ev = "open" THEN FALSE ELSE dead)
          /\ life' = [open |-> IF e.ev = "open" THEN e.res = "ok" ELSE IF e.ev = "leave" THEN FALSE ELSE life.open, alive |-> e.alive]
          /\ l' = l + 1 /\ UNCHANGED <<c, store, verdict>>

Next ==
  /\ verdict = "run"
  /\ IF l > Len(Ev) THEN Finish(IF Kind = "seq" THEN SeqEnd ELSE IF Tr.outcome = "ok" THEN "OK" ELSE "session-failed")
     ELSE CASE Kind = "seq" -> SeqStep(Ev[l])
            [] Kind = "cutresp" -> CutStep(CutResp(Ev[l]))
            [] Kind = "cutreq" -> CutStep(CutReq(Ev[l]))
            [] Kind = "life" -> LifeStep(Ev[l])
Spec == Init /\ [][Next]_vars
=============================================================================
