-------------------------------- MODULE Api --------------------------------
(* Executing operations as a stack machine: frames are entered, nested calls  *)
(* are made, results are returned and errors unwind frame by frame. Checked   *)
(* against the closed form in ApiDefs for all trees up to depth 3.            *)
EXTENDS ApiDefs, TLC
CONSTANTS Wide
VARIABLES prog, stack, ret, log
vars == <<prog, stack, ret, log>>
Leaf(b, c) == [body |-> b, check |-> c, changed |-> FALSE, onfail |-> "ignore", kids |-> <<>>]
Leaves == {[Leaf("success", TRUE) EXCEPT !.changed = ch] : ch \in BOOLEAN} \cup {Leaf(b, c) : b \in {"failure", "operror", "none", "cpe", "exc", "nested"}, c \in BOOLEAN}
Nest(ks, c, f) == [body |-> "nested", check |-> c, changed |-> FALSE, onfail |-> f, kids |-> ks]
Seqs(S) == {<<>>} \cup {<<a>> : a \in S} \cup {<<a, b>> : a, b \in S}
L1 == Leaves \cup {Nest(ks, c, f) : ks \in Seqs(Leaves), c \in BOOLEAN, f \in {"ignore", "propagate"}}
Small == {x \in L1 : x.kids = <<>> \/ (Len(x.kids) = 1 /\ x.kids[1].body \in {"failure", "operror", "success", "cpe"})}
L2 == L1 \cup {Nest(ks, c, f) : ks \in (IF Wide THEN Seqs(Small) ELSE {<<a>> : a \in Small}), c \in BOOLEAN, f \in {"ignore", "propagate"}}
None == [k |-> "~", exc |-> "~", changed |-> FALSE, did |-> FALSE]
Frame(t) == [t |-> t, i |-> 1, ch |-> FALSE]
Init == prog \in L2 /\ stack = <<Frame(prog)>> /\ ret = None /\ log = <<>>
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
Leave(r) == stack' = Pop /\ ret' = r /\ log' = Append(log, r)
Step ==
  /\ stack # <<>>
  /\ LET f == Top IN
     IF f.t.body # "nested" THEN Leave(Simple(f.t))
     ELSE IF ret.k # "~"      \* a nested call ended
     THEN LET e == Ends(f.t, ret, f.ch) IN
          IF e.k # "~" THEN Leave(e)
          ELSE stack' = SetTop([f EXCEPT !.i = @ + 1, !.ch = @ \/ ret.did]) /\ ret' = None /\ UNCHANGED log
     ELSE IF f.i > Len(f.t.kids) THEN Leave(AllDone(f.t, f.ch))
     ELSE stack' = Append(stack, Frame(f.t.kids[f.i])) /\ UNCHANGED <<ret, log>>
  /\ UNCHANGED prog
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Finished == stack = <<>>
Agrees == Finished => log = Log(prog) /\ ret = Outcome(prog)
RECURSIVE Bad(_)
Bad(t) == IF t.body = "nested" THEN t.kids = <<>> \/ \E i \in 1..Len(t.kids) : Bad(t.kids[i]) ELSE t.body # "success"
RECURSIVE Strict(_)
Strict(t) == t.check /\ \A i \in 1..Len(t.kids) : Strict(t.kids[i])
\* with checking enabled everywhere, a failure anywhere is an error at the top
NothingSwallowed == Finished /\ Strict(prog) /\ Bad(prog) => ret.k = "raise"
NoSpuriousFailure == Finished /\ ~Bad(prog) => ret.k = "ok"
CheckedNeverFailedResult == Finished /\ prog.check => ret.k # "failed"
FailedUnchanged == Finished /\ ret.k # "ok" => ~ret.changed
Terminates == <>Finished
=============================================================================
