----------------------------- MODULE ExecTrace -----------------------------
(* Validates recorded remote commands (C08).                                  *)
EXTENDS ExecDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, verdict
vars == <<c, l, verdict>>
Env == Cases[c].tr.env
Ev == Cases[c].tr.events
SetOf(s) == {s[i] : i \in 1..Len(s)}

None == [as_user |-> "~", as_group |-> "~", umask |-> "~", cwd |-> "~"]
Base == [as_user |-> Env.uids[ToString(Env.self.uid)], as_group |-> Env.gids[ToString(Env.self.gid)], umask |-> "077", cwd |-> Env.basecwd]

Judge(e) ==
  LET direct == e.level = "connector"
      s == Effective(e.req, IF direct THEN None ELSE e.dflt, IF direct THEN None ELSE Base)
      dok == direct \/ DefaultsOk(Env, e.dflt)
      ok == dok /\ SettingsOk(Env, s) /\ ~e.req.bad
  IN CASE ~ok /\ Len(e.runs) # 0 -> "command-ran-although-settings-cannot-be-applied"
       [] ~ok /\ e.res.o # "error" -> "no-error-although-settings-cannot-be-applied"
       [] ~ok -> "OK"
       [] Len(e.runs) # 1 -> "command-did-not-run-exactly-once"
       [] e.res.o = "error" -> "error-although-command-ran"
       [] OTHER ->
            LET id == Identity(Env, s)
                r == e.runs[1]
            IN CASE r.uid # id.uid -> "wrong-user"
                 [] r.gid # id.gid -> "wrong-group"
                 [] SetOf(r.groups) # id.groups -> "wrong-supplementary-groups"
                 [] r.umask # id.umask -> "wrong-umask"
                 [] r.cwd # id.cwd -> "wrong-directory"
                 [] r.args # e.req.args -> "wrong-arguments"
                 [] r.stdin # e.req.stdin -> "wrong-input"
                 [] e.res.o # (IF e.req.check /\ e.req.rcnum # 0 THEN "failed" ELSE "completed") -> "wrong-outcome"
                 [] e.res.rc # e.req.rcnum -> "wrong-exit-status"
                 [] e.req.capture /\ (e.res.out # e.req.out \/ e.res.err # e.req.err) -> "wrong-output"
                 [] ~e.req.capture /\ (e.res.out # "~none" \/ e.res.err # "~none") -> "output-captured"
                 [] OTHER -> "OK"

Init == c \in 1..Len(Cases) /\ l = 1 /\ verdict = "run"
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l>>
Next == /\ verdict = "run"
        /\ IF l > Len(Ev) THEN Finish(IF Cases[c].tr.outcome = "ok" THEN "OK" ELSE "session-failed")
           ELSE LET v == Judge(Ev[l]) IN IF v # "OK" THEN Finish(v) ELSE l' = l + 1 /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Next]_vars
=============================================================================
