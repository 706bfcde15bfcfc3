------------------------------- MODULE ApiDefs -------------------------------
(* What calling an operation results in. A call is a tree                     *)
(* [body, check, changed, onfail, kids]; its outcome [k, exc, changed] is     *)
(* "ok" (a successful result), "failed" (a failed result) or "raise".         *)
EXTENDS Naturals, Sequences, FiniteSets
\* did: whether a (part of a) call that took effect changed something
\* msg: the message a failure carries ("*": one chosen by the implementation)
Ok(ch) == [k |-> "ok", exc |-> "~", changed |-> ch, did |-> ch, msg |-> "~"]
Failed(d, m) == [k |-> "failed", exc |-> "~", changed |-> FALSE, did |-> d, msg |-> m]
Raise(x, m) == [k |-> "raise", exc |-> x, changed |-> FALSE, did |-> FALSE, msg |-> m]
\* an error of the operation itself: raised, or turned into a result on request
Error(t, d, m) == IF t.check THEN Raise("op", m) ELSE Failed(d, m)
Simple(t) ==
  CASE t.body = "success" -> Ok(t.changed)
    [] t.body \in {"failure", "operror", "latefail"} -> Error(t, FALSE, t.body)
    [] t.body \in {"mutefailure", "muteoperror"} -> Error(t, FALSE, "")
    [] t.body \in {"nostate", "onlyinitial", "onlyfinal", "twice"} -> Error(t, FALSE, "*")
    [] t.body = "none" -> Raise("op", "*")
    [] t.body = "cpe" -> Raise("cpe", "*")
    [] t.body = "exc" -> Raise("exc", "*")
    [] t.body = "nohost" -> Raise("exc", "*")
\* how the outcome of a nested call ends the outer one ("~": it goes on)
Ends(t, r, ch) == CASE r.k = "raise" -> IF r.exc = "op" THEN Error(t, ch, r.msg) ELSE r
                [] r.k = "failed" /\ t.onfail = "propagate" -> Error(t, ch, r.msg)
                [] OTHER -> [k |-> "~", exc |-> "~", changed |-> FALSE, did |-> FALSE, msg |-> "~"]
AllDone(t, ch) == IF t.kids = <<>> THEN Error(t, FALSE, "*") ELSE Ok(ch)
\* the outcomes of all calls in the order in which they end
RECURSIVE Log(_), KidLog(_, _, _)
KidLog(t, i, ch) ==
  IF i > Len(t.kids) THEN <<AllDone(t, ch)>>
  ELSE LET kl == Log(t.kids[i]) r == kl[Len(kl)] e == Ends(t, r, ch)
       IN IF e.k # "~" THEN Append(kl, e) ELSE kl \o KidLog(t, i + 1, ch \/ r.did)
Log(t) == IF t.body = "nested" THEN KidLog(t, 1, FALSE) ELSE <<Simple(t)>>
Outcome(t) == LET x == Log(t) IN x[Len(x)]
=============================================================================
