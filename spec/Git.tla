-------------------------------- MODULE Git --------------------------------
(* A repository operation as a sequence of git commands (resolve the remote   *)
(* reference, then clone, or switch and pull) against a remote that changes   *)
(* between operations, with any command failing. Submodules follow in a step   *)
(* of their own, so that a checkout may be current while its submodules are not. *)
EXTENDS GitDefs, TLC
CONSTANTS MaxOps, MaxRemote
Commits == {"c1", "c2", "c3", "d2"}
Par == <<<<"c1", "~">>, <<"c2", "c1">>, <<"c3", "c2">>, <<"d2", "c1">>>>
Branches == {"main", "dev"}
Refs0 == [heads |-> <<<<"main", "c1">>, <<"dev", "d2">>>>, tags |-> <<<<"v1", "c1">>>>, head |-> "main"]
VARIABLES refs, tgt, op, pc, newest, res, nops, nrem, pre
vars == <<refs, tgt, op, pc, newest, res, nops, nrem, pre>>
Absent == [kind |-> "absent", origin |-> "~", commit |-> "~", index |-> "~", branches |-> <<>>, tags |-> <<>>, sub |-> "~", data |-> "none"]
SubAt(cm) == CASE cm = "c2" -> "s1" [] cm = "c3" -> "s2" [] cm = "d2" -> "s1" [] OTHER -> None
SubsCurrent(t) == SubAt(t.commit) = None \/ t.sub = SubAt(t.commit)
Ops == {[url |-> u, ref |-> r, update |-> up, rebase |-> rb, ff |-> f, subs |-> sm] : u \in {"u1", "u2"}, r \in {"~", "main", "dev", "v1", "ghost"}, up \in BOOLEAN, rb \in BOOLEAN, f \in BOOLEAN, sm \in BOOLEAN}
NoOp == [url |-> "", ref |-> "~", update |-> TRUE, rebase |-> TRUE, ff |-> FALSE, subs |-> FALSE]
Init == /\ refs = Refs0 /\ op = NoOp /\ pc = "idle" /\ newest = "~" /\ res = "none" /\ nops = 0 /\ nrem = 0
        /\ tgt \in {Absent, [Absent EXCEPT !.kind = "dir", !.data = "mine"], [Absent EXCEPT !.kind = "file", !.data = "mine"]} /\ pre = tgt
Remote == /\ pc = "idle" /\ nrem < MaxRemote /\ nrem' = nrem + 1
          /\ \/ \E i \in 1..2, cm \in Commits : refs' = [refs EXCEPT !.heads[i][2] = cm]
             \/ \E cm \in Commits : refs' = [refs EXCEPT !.tags[1][2] = cm]
             \/ \E b \in Branches : refs' = [refs EXCEPT !.head = b]
          /\ UNCHANGED <<tgt, op, pc, newest, res, nops, pre>>
(* The user moves a submodule to another commit. *)
SubMove == /\ pc = "idle" /\ tgt.kind = "repo" /\ tgt.sub # "~" /\ nrem < MaxRemote /\ nrem' = nrem + 1 /\ \E x \in {"s1", "s2"} : tgt' = [tgt EXCEPT !.sub = x]
           /\ res' = "none" /\ pre' = tgt' /\ UNCHANGED <<refs, op, pc, newest, nops>>
Begin == /\ pc = "idle" /\ nops < MaxOps /\ nops' = nops + 1 /\ op' \in Ops /\ pre' = tgt /\ res' = "none" /\ pc' = "inspect" /\ newest' = "~" /\ UNCHANGED <<refs, tgt, nrem>>
End(r) == res' = r /\ pc' = "idle" /\ UNCHANGED <<refs, op, newest, nops, nrem, pre>>
Inspect == /\ pc = "inspect"
           /\ IF tgt.kind \in {"file", "dir"} THEN End("failed") /\ UNCHANGED tgt
              ELSE IF tgt.kind = "repo" /\ ~op.update THEN End("ok") /\ UNCHANGED tgt
              ELSE pc' = "resolve" /\ UNCHANGED <<refs, tgt, op, newest, res, nops, nrem, pre>>
Lookup == /\ pc = "resolve"
          /\ \/ End("failed") /\ UNCHANGED tgt       \* the remote cannot be reached
             \/ LET n == Resolve(refs, op.ref) IN
                IF n = None THEN End("failed") /\ UNCHANGED tgt
                ELSE IF tgt.kind = "repo" /\ tgt.commit = n /\ tgt.origin = op.url
                     THEN IF op.subs /\ ~SubsCurrent(tgt) THEN pc' = "subs" /\ UNCHANGED <<refs, tgt, op, newest, res, nops, nrem, pre>> ELSE End("ok") /\ UNCHANGED tgt
                ELSE newest' = n /\ pc' = "apply" /\ UNCHANGED <<refs, tgt, op, res, nops, nrem, pre>>
Wanted == IF op.ref = None THEN refs.head ELSE op.ref
IsBranch == Wanted \in Names(refs.heads)
(* Local branches after the checkout follows the wanted branch. *)
Following(bs) == IF ~IsBranch THEN bs
                 ELSE IF Wanted \in Names(bs) THEN [bs EXCEPT ![At(bs, Wanted)] = <<Wanted, newest>>]
                 ELSE Append(bs, <<Wanted, newest>>)
Done == IF op.subs THEN pc' = "subs" /\ UNCHANGED <<refs, op, newest, res, nops, nrem, pre>> ELSE End("ok")
Clone == /\ pc = "apply" /\ tgt.kind = "absent"
         /\ \/ End("failed") /\ UNCHANGED tgt         \* git removes what it created
            \/ tgt' = [tgt EXCEPT !.kind = "repo", !.origin = op.url, !.commit = newest, !.index = "", !.branches = Following(<<>>), !.tags = refs.tags] /\ Done
Refuse == pc = "apply" /\ tgt.kind = "repo" /\ tgt.origin # op.url /\ End("failed") /\ UNCHANGED tgt
(* The wanted branch is checked out first if another one is current; a pull    *)
(* that then fails leaves the checkout at that branch.                          *)
Switched == IF IsBranch /\ Wanted \in Names(tgt.branches) THEN [tgt EXCEPT !.commit = Val(tgt.branches, Wanted)] ELSE tgt
Pull == /\ pc = "apply" /\ tgt.kind = "repo" /\ tgt.origin = op.url
        /\ \/ End("failed") /\ UNCHANGED tgt
           \/ End("failed") /\ tgt' = Switched
           \/ IF Follows(tgt, op, refs, Par)
              THEN tgt' = [tgt EXCEPT !.commit = newest, !.branches = Following(tgt.branches), !.tags = refs.tags] /\ Done
              ELSE End("failed") /\ tgt' = Switched
Submodules == /\ pc = "subs"
              /\ \/ End("failed") /\ UNCHANGED tgt
                 \/ End("ok") /\ tgt' = [tgt EXCEPT !.sub = IF SubAt(tgt.commit) = None THEN @ ELSE SubAt(tgt.commit)]
Next == SubMove \/ Submodules \/ Remote \/ Begin \/ Inspect \/ Lookup \/ Clone \/ Refuse \/ Pull
Spec == Init /\ [][Next]_vars
ReachesGoal == (pc = "idle" /\ res = "ok" /\ tgt.commit # pre.commit) => (tgt.kind = "repo" /\ tgt.origin = op.url /\ tgt.commit = newest)
NeverOverwrites == (tgt.kind \in {"file", "dir"} \/ pre.kind \in {"file", "dir"}) => tgt = pre
FailedKeeps == (pc = "idle" /\ res = "failed") =>
  \/ tgt = pre
  \/ pre.kind = "repo" /\ pre.origin = op.url /\ tgt.commit \in Commits /\ (tgt = [pre EXCEPT !.commit = tgt.commit] \/ (op.subs /\ tgt = [pre EXCEPT !.commit = newest, !.branches = tgt.branches, !.tags = tgt.tags]))
  \/ pre.kind = "absent" /\ op.subs /\ tgt.kind = "repo" /\ tgt.origin = op.url /\ tgt.commit = newest
SubmodulesFollow == [][(pc # "idle" /\ pc' = "idle" /\ res' = "ok" /\ op.subs /\ (op.update \/ pre.kind = "absent")) => SubsCurrent(tgt')]_vars
SubmodulesKept == [][(pc # "idle" /\ (~op.subs \/ (pre.kind = "repo" /\ ~op.update))) => tgt'.sub = tgt.sub]_vars
OtherOriginKept == (pre.kind = "repo" /\ pre.origin # op.url) => tgt = pre
LeftAlone == (pre.kind = "repo" /\ ~op.update) => tgt = pre
MustFailFails == [][(pc # "idle" /\ pc' = "idle" /\ MustFail(pre, op, refs)) => res' = "failed"]_vars
Settles == [][(pc # "idle" /\ pc' = "idle" /\ res' = "ok") => tgt'.commit = Goal(pre, op, refs)]_vars
=============================================================================
