---------------------------- MODULE ScriptTrace ----------------------------
(* Validates recorded script runs (C10, C11): the machine's observable events *)
(* must be exactly the recorded ones.                                         *)
EXTENDS ScriptDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, m, verdict
vars == <<c, l, m, verdict>>
SetOf(s) == {s[i] : i \in 1..Len(s)}
Tr == Cases[c].tr
Prog == Cases[c].scn.prog
Env == [Tr.env EXCEPT !.rdirs = SetOf(@)]

\* parameters are listed as <<name, value>> pairs (an empty JSON object has no TLA+ counterpart)
Obs == [Tr.events[l] EXCEPT !.ev = @]
Differs(e, o) ==
  CASE e.ev # o.ev -> "unexpected-event:" \o o.ev \o "-instead-of-" \o e.ev
    [] e.ev = "caught" -> IF e.kind = o.kind THEN "OK" ELSE "wrong-exception:" \o o.kind \o "-instead-of-" \o e.kind
    [] e.ev = "op" -> IF e.mode = o.mode /\ e.owner = o.owner /\ e.group = o.group THEN "OK" ELSE "wrong-settings-used-by-operation"
    [] e.ev = "obs" ->
         CASE e.cwd # o.cwd -> "wrong-working-directory"
           [] e.script # o.script -> "wrong-current-script"
           [] {<<p, e.params[p]>> : p \in DOMAIN e.params} # {<<o.params[i][1], o.params[i][2]>> : i \in 1..Len(o.params)} -> "wrong-parameters"
           [] e.dfl # o.dfl -> "wrong-defaults"
           [] o.run.uid # Env.users[e.dfl.as_user].uid \/ o.run.gid # Env.groups[e.dfl.as_group].gid \/ o.run.umask # e.dfl.umask \/ o.run.cwd # e.dfl.cwd -> "command-not-using-defaults"
           [] OTHER -> "OK"

Init == c \in 1..Len(Cases) /\ l = 1 /\ verdict = "run" /\ m = Start([Cases[c].tr.env EXCEPT !.rdirs = SetOf(@)], Cases[c].scn.prog)
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l, m>>
End == CASE l <= Len(Tr.events) -> "unexpected-event-after-the-end:" \o Tr.events[l].ev
         [] Tr.result # m.res -> "wrong-result:" \o Tr.result \o "-instead-of-" \o m.res
         [] Tr.after.cwd # m.g.cwd -> "directory-not-restored"
         [] Tr.after.script # m.g.script -> "script-not-restored"
         [] OTHER -> "OK"
Next == /\ verdict = "run"
        /\ IF m.res # "run" THEN Finish(End)
           ELSE LET n == Step(Env, Prog, m) IN
                IF n.out = <<>> THEN m' = n /\ UNCHANGED <<c, l, verdict>>
                ELSE IF l > Len(Tr.events) THEN Finish("missing-event:" \o n.out[1].ev)
                ELSE LET v == Differs(n.out[1], Tr.events[l]) IN
                     IF v # "OK" THEN Finish(v) ELSE m' = n /\ l' = l + 1 /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Next]_vars
=============================================================================
