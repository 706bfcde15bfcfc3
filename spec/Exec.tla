-------------------------------- MODULE Exec --------------------------------
(* Running one command remotely, step by step: the client determines the      *)
(* settings, the dispatcher checks them, the child takes them over one by one *)
(* (each step may be impossible), then executes the command exactly once.     *)
EXTENDS ExecDefs, TLC
VARIABLES pc, req, dflt, child, runs, result, me
vars == <<pc, req, dflt, child, runs, result, me>>
\* who the dispatcher runs as
Selves == {[uid |-> 0, gid |-> 0, groups |-> <<0, 12>>, cwd |-> "d"], [uid |-> 0, gid |-> 12, groups |-> <<>>, cwd |-> "d"],
           [uid |-> 1, gid |-> 11, groups |-> <<12>>, cwd |-> "d"], [uid |-> 1, gid |-> 12, groups |-> <<11>>, cwd |-> "d"]}

Env == [users |-> [root |-> [uid |-> 0, gid |-> 0], u1 |-> [uid |-> 1, gid |-> 11]],
        groups |-> [root |-> [gid |-> 0, members |-> <<>>], g1 |-> [gid |-> 11, members |-> <<>>], g2 |-> [gid |-> 12, members |-> <<"u1">>]],
        uids |-> [x \in {"0", "1"} |-> IF x = "0" THEN "root" ELSE "u1"], gids |-> [x \in {"0", "11"} |-> IF x = "0" THEN "root" ELSE "g1"],
        dirs |-> [d |-> [real |-> "d", kind |-> "dir"], p |-> [real |-> "p", kind |-> "private"], f |-> [real |-> "f", kind |-> "file"]],
        self |-> me]
NameOf(id) == CHOOSE u \in DOMAIN Env.users : Env.users[u].uid = id
GNameOf(id) == CHOOSE g \in DOMAIN Env.groups : Env.groups[g].gid = id
Base == [as_user |-> NameOf(me.uid), as_group |-> GNameOf(me.gid), umask |-> "077", cwd |-> "d"]
NoBase == [as_user |-> "~", as_group |-> "~", umask |-> "~", cwd |-> "~"]

Users == {"~", "u1", "1", "nobody"}
GroupsV == {"~", "g1", "g2", "nogrp"}
UmaskV == {"~", "022", "9"}
CwdV == {"~", "d", "p", "f", "x"}

S == IF dflt = NoBase THEN Effective(req, dflt, NoBase) ELSE Effective(req, dflt, Base)

Init == /\ pc = "client" /\ runs = 0 /\ result = "~"
        /\ \E u \in Users, g \in GroupsV, m \in UmaskV, c \in CwdV, rc \in {0, 3}, chk \in BOOLEAN :
              req = [user |-> u, group |-> g, umask |-> m, cwd |-> c, rc |-> rc, check |-> chk]
        /\ \E u \in {"~", "u1", "nobody"}, g \in {"~", "g2"}, c \in {"~", "p", "x"} :
              dflt = [as_user |-> u, as_group |-> g, umask |-> "~", cwd |-> c]
        /\ me \in Selves
        /\ child = [uid |-> me.uid, gid |-> me.gid, groups |-> {me.groups[i] : i \in 1..Len(me.groups)} \cup {me.gid}, umask |-> "0022", cwd |-> "d"]

Fail(why) == result' = why /\ pc' = "done" /\ UNCHANGED <<me, req, dflt, child, runs>>
Client == pc = "client" /\ IF ~DefaultsOk(Env, dflt) THEN Fail("error") ELSE pc' = "check" /\ UNCHANGED <<me, req, dflt, child, runs, result>>
Check == /\ pc = "check"
         /\ IF \/ Given(S.umask) /\ S.umask \notin DOMAIN Umasks
               \/ Given(S.user) /\ UserOf(Env, S.user) = "~"
               \/ Given(S.group) /\ GroupOf(Env, S.group) = "~"
               \/ Given(S.cwd) /\ (S.cwd \notin DOMAIN Env.dirs \/ Env.dirs[S.cwd].kind = "file")
            THEN Fail("error") ELSE pc' = "umask" /\ UNCHANGED <<me, req, dflt, child, runs, result>>
StepTo(n) == pc' = n /\ UNCHANGED <<me, req, dflt, runs, result>>
Umask == pc = "umask" /\ child' = [child EXCEPT !.umask = IF Given(S.umask) THEN Umasks[S.umask] ELSE "0077"] /\ StepTo("gid")
\* the group has to be changed while still privileged
\* (an unprivileged dispatcher can change neither)
SetGid == /\ pc = "gid"
          /\ IF child.uid # 0 /\ Gid(Env, S) # child.gid THEN Fail("error")
             ELSE child' = [child EXCEPT !.gid = Gid(Env, S)] /\ StepTo("groups")
SetGroups == pc = "groups" /\ child' = [child EXCEPT !.groups = IF Uid(Env, S) # me.uid /\ me.uid = 0 THEN Groups(Env, S) ELSE {me.groups[i] : i \in 1..Len(me.groups)} \cup {child.gid}] /\ StepTo("uid")
SetUid == /\ pc = "uid"
          /\ IF child.uid # 0 /\ Uid(Env, S) # child.uid THEN Fail("error")
             ELSE child' = [child EXCEPT !.uid = Uid(Env, S)] /\ StepTo("chdir")
Chdir == /\ pc = "chdir"
         /\ IF Given(S.cwd) /\ ~CwdOk(Env, S.cwd, child.uid) THEN Fail("error")
            ELSE child' = [child EXCEPT !.cwd = IF Given(S.cwd) THEN Env.dirs[S.cwd].real ELSE @] /\ StepTo("exec")
Exec == pc = "exec" /\ runs' = runs + 1 /\ pc' = "done"
        /\ result' = (IF req.check /\ req.rc # 0 THEN "failed" ELSE "completed") /\ UNCHANGED <<me, req, dflt, child>>
Next == Client \/ Check \/ Umask \/ SetGid \/ SetGroups \/ SetUid \/ Chdir \/ Exec
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RunsAtMostOnce == runs <= 1
NeverRunsWithOtherSettings == runs = 1 => SettingsOk(Env, S) /\ child = Identity(Env, S)
RunsIffPossible == pc = "done" => (runs = 1 <=> DefaultsOk(Env, dflt) /\ SettingsOk(Env, S))
ErrorIffNotRun == pc = "done" => (result = "error" <=> runs = 0)
RaisesIffChecked == pc = "done" /\ runs = 1 => (result = "failed" <=> req.check /\ req.rc # 0)
NoForeignGroups == runs = 1 /\ child.uid # me.uid => child.groups \subseteq {child.gid, 12} /\ (child.gid # 0 => 0 \notin child.groups)
Ends == <>(pc = "done")
=============================================================================
