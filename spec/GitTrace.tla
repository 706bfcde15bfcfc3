------------------------------ MODULE GitTrace -----------------------------
(* Validates recorded repository operations (C23; dry runs for C14).          *)
EXTENDS GitDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
VARIABLES c, l, shallow, verdict
vars == <<c, l, shallow, verdict>>
Tr == Cases[c].tr
Ev == Tr.events
Ok(e) == e.res.o = "ok" /\ e.res.success
Failing(e) == CASE Ok(e) -> "failure-reported-as-success"
                [] e.res.o = "ok" /\ e.check -> "failure-not-raised"
                [] e.res.o = "ok" /\ (e.res.changed \/ ~e.res.msg) -> "failed-result-malformed"
                [] OTHER -> "OK"
(* Submodules: what a commit records, and whether a checkout lacks it.               *)
Sub(cm) == IF cm \in Names(Tr.subs) THEN Val(Tr.subs, cm) ELSE None
Inner(s) == IF s \in Names(Tr.inner) THEN Val(Tr.inner, s) ELSE None
SubsAt(e, st, cm) == \/ Sub(cm) = None
                     \/ /\ st.sub = Sub(cm)
                        /\ e.rec /\ Inner(Sub(cm)) # None => st.inner = Inner(Sub(cm))
SubsOf(st) == <<st.sub, st.subf, st.subn, st.inner, st.innerf>>
Updates(e) == e.before.kind = "absent" \/ e.update
WithSubs(e) == e.subs /\ Updates(e)
Lacks(e, cm) == WithSubs(e) /\ ~SubsAt(e, e.before, cm)
SubVerdict(e) ==
  LET b == e.before a == e.after g == a.commit IN
  CASE ~WithSubs(e) -> IF SubsOf(a) # SubsOf(b) THEN "submodules-touched" ELSE "OK"
    [] ~SubsAt(e, a, g) -> "wrong-submodule-commit"
    [] Sub(g) = None -> "OK"
    [] a.subf # a.sub \/ (e.rec /\ Inner(a.sub) # None /\ a.innerf # a.inner) -> "wrong-submodule-content"
    [] ~e.rec /\ <<a.inner, a.innerf>> # <<b.inner, b.innerf>> -> "nested-submodule-touched"
    [] b.kind = "absent" /\ (IF e.shal /\ e.n > 0 THEN a.subn > e.n ELSE a.subn # Length(Tr.parents, a.sub)) -> "wrong-number-of-submodule-commits"
    [] OTHER -> "OK"
(* The branch a request refers to, or none for tags.                                   *)
Branch(e) == LET n == IF e.ref = None THEN e.refs.head ELSE e.ref IN IF n \in Names(e.refs.heads) THEN n ELSE None
Moves(e) == e.before.kind # "repo" \/ e.before.commit # e.after.commit
Changed(e) == Moves(e) \/ Lacks(e, e.after.commit)
Report(e, b, a) == e.res.i.commit = b.commit /\ (e.res.i.initialized = "True") = (b.kind = "repo") /\ e.res.f.commit = a /\ e.res.f.initialized = "True"
(* An update that cannot be completed may still have switched to another (complete) commit. *)
(* A repository may have been cloned when its submodules could not be.                     *)
(* Nothing can be said if the injected fault hit the undoing of conflicting changes itself.     *)
Cloned(e) == e.subs /\ e.before.kind = "absent" /\ e.after.kind = "repo" /\ e.after.origin = e.url /\ e.after.commit = Goal(e.before, e, e.refs) /\ e.after.f = e.after.commit /\ Clean(e.after)
Moved(e, b, a) == ~MustFail(b, e, e.refs) /\ Clean(b) /\ Clean(a) /\ a.f = a.commit
Real(e, sh) ==
  LET b == e.before
      a == e.after
      goal == Goal(b, e, e.refs)
  IN CASE a.siblings # b.siblings -> "unrelated-paths-touched"
       [] MustFail(b, e, e.refs) /\ Failing(e) # "OK" -> Failing(e)
       [] MustFail(b, e, e.refs) /\ SubsOf(a) # SubsOf(b) -> "failed-operation-damaged-the-target"
       [] ~Ok(e) /\ ~Cloned(e) /\ (a.kind # b.kind \/ a.extra # b.extra \/ a.origin # b.origin) -> "failed-operation-damaged-the-target"
       [] ~Ok(e) /\ ~Cloned(e) /\ (a.commit # b.commit \/ a.f # b.f) /\ ~Moved(e, b, a) /\ ~(e.fault /\ ~Follows(b, e, e.refs, Tr.parents)) -> "failed-operation-damaged-the-target"
       [] ~Ok(e) /\ ~e.fault /\ MustSucceed(b, e, e.refs, Tr.parents, sh) -> "needlessly-failed"
       [] ~Ok(e) -> Failing(e)
       [] a.kind # "repo" \/ (b.kind = "absent" /\ a.origin # e.url) \/ (b.kind = "repo" /\ a.origin # b.origin) -> "not-a-checkout-of-the-repository"
       [] a.commit # goal -> "wrong-commit-checked-out"
       [] Clean(b) /\ a.f # a.commit -> "wrong-content-checked-out"
       [] ~Clean(b) /\ a.f # b.f -> "local-modification-lost"
       [] a.extra # b.extra -> "untracked-files-touched"
       [] b.kind = "absent" /\ a.count # Kept(Tr.parents, goal, e.n) -> "wrong-number-of-commits"
       [] SubVerdict(e) # "OK" -> SubVerdict(e)
       [] Moves(e) /\ a.head # Branch(e) -> "requested-branch-not-checked-out"
       [] e.res.changed # Changed(e) -> "change-report-untruthful"
       [] ~Report(e, b, a.commit) -> "reported-commits-untruthful"
       [] e.again /\ l > 1 /\ Ok(Ev[l - 1]) /\ e.res.changed -> "repeated-operation-reports-change"
       [] OTHER -> "OK"
Dry(e, sh) ==
  LET b == e.before IN
  CASE e.after # b -> "dry-run-modified-host"
    [] ~MustSucceed(b, e, e.refs, Tr.parents, sh) -> "OK"
    [] ~Ok(e) -> "dry-run-failed"
    [] e.res.changed # (b.kind # "repo" \/ b.commit # Goal(b, e, e.refs) \/ Lacks(e, b.commit)) -> "dry-run-mispredicts-change"
    [] ~Report(e, b, Goal(b, e, e.refs)) -> "dry-run-mispredicts-commit"
    [] OTHER -> "OK"
Paired(e) == l > 1 /\ e.kind = "real" /\ Ev[l - 1].kind = "dry" /\ Ev[l - 1].id = e.id
Same(a, b) == a.res.changed = b.res.changed /\ a.res.initial = b.res.initial /\ a.res.final = b.res.final
Judge(e, sh) ==
  CASE e.kind = "dry" -> Dry(e, sh)
    [] Prop = "C14" -> IF Paired(e) /\ Ok(e) /\ (~Ok(Ev[l - 1]) \/ ~Same(e, Ev[l - 1])) THEN "dry-run-mispredicts-result" ELSE "OK"
    [] OTHER -> Real(e, sh)
Init == c \in 1..Len(Cases) /\ l = 1 /\ shallow = FALSE /\ verdict = "run"
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l, shallow>>
Next == /\ verdict = "run"
        /\ IF Tr.outcome # "ok" THEN Finish("driver-" \o Tr.outcome)
           ELSE IF l > Len(Ev) THEN Finish("OK")
           ELSE LET e == Ev[l]
                    sh == (shallow /\ e.before.kind = "repo") \/ e.depth
                    v == Judge(e, sh)
                IN IF v # "OK" THEN Finish(v) ELSE l' = l + 1 /\ shallow' = sh /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Next]_vars
=============================================================================
