------------------------------ MODULE GitDefs ------------------------------
(* Repository checkouts (C23): what a reference of a remote repository means  *)
(* and what an operation must leave behind.                                   *)
EXTENDS Naturals, Sequences, FiniteSets
None == "~"
Names(ps) == {ps[i][1] : i \in 1..Len(ps)}
At(ps, n) == (CHOOSE i \in 1..Len(ps) : ps[i][1] = n)
Val(ps, n) == ps[At(ps, n)][2]
(* A branch of that name, else a tag of that name (the commit it refers to);   *)
(* without a reference the remote's default branch.                            *)
Resolve(refs, ref) ==
  LET n == IF ref = None THEN refs.head ELSE ref
  IN CASE n \in Names(refs.heads) -> Val(refs.heads, n)
       [] ref # None /\ n \in Names(refs.tags) -> Val(refs.tags, n)
       [] OTHER -> None
RECURSIVE Ancestor(_, _, _)
Ancestor(par, a, b) == b # None /\ (a = b \/ Ancestor(par, a, Val(par, b)))

(* How many commits a commit and its history consist of.                       *)
RECURSIVE Length(_, _)
Length(par, c) == IF c = None THEN 0 ELSE 1 + Length(par, Val(par, c))
Kept(par, c, depth) == IF depth = 0 \/ Length(par, c) < depth THEN Length(par, c) ELSE depth

(* before: state of the target. The operation may, must or must not succeed.   *)
Usable(before, o) == before.kind = "absent" \/ (before.kind = "repo" /\ (~o.update \/ before.origin = o.url))
Goal(before, o, refs) == IF before.kind = "repo" /\ ~o.update THEN before.commit ELSE Resolve(refs, o.ref)
MustFail(before, o, refs) == ~Usable(before, o) \/ Goal(before, o, refs) = None
Clean(before) == before.index = None \/ before.index = ""
(* Only branches of the same name continue local work (commits of which the    *)
(* remote knows nothing may conflict with it); histories that do not continue  *)
(* each other can only be followed by rebasing, which git only does reliably   *)
(* if no tag shares the name of the branch.  Shallow histories and checkouts   *)
(* with modified files may not be updatable.                                   *)
Follows(before, o, refs, par) ==
  LET n == IF o.ref = None THEN refs.head ELSE o.ref
  IN \/ n \notin Names(refs.heads)
     \/ n \notin Names(before.branches)
     \/ Ancestor(par, Val(before.branches, n), Goal(before, o, refs))
     \/ o.rebase /\ ~o.ff /\ Val(before.branches, n) \in Names(par) /\ n \notin Names(before.tags) \cup Names(refs.tags)
MustSucceed(before, o, refs, par, shallow) ==
  /\ ~MustFail(before, o, refs)
  /\ \/ before.kind = "absent"
     \/ before.commit = Goal(before, o, refs)
     \/ Clean(before) /\ ~shallow /\ Follows(before, o, refs, par)
=============================================================================
