------------------------------ MODULE LineOps ------------------------------
(* Line management as the requests it consists of (examine, back up, write),  *)
(* each possibly failing, followed by a repeated run.                         *)
EXTENDS LineDefs, TLC
CONSTANT Texts, MaxLen
VARIABLES f, f0, o, plan, fault, run, res, bak, exists
vars == <<f, f0, o, plan, fault, run, res, bak, exists>>

\* texts: "A", "wA" (A with whitespace), "B", "" ; the pattern "A" matches A and wA
Strip(t) == IF t = "wA" THEN "A" ELSE IF t = "w" THEN "" ELSE t
Rx(t) == t \in {"A", "wA"}
L(t, e) == [t |-> t, s |-> Strip(t), e |-> e, r |-> Rx(t)]
Files == UNION {{ [i \in 1..n |-> L(ts[i], IF i = n THEN last ELSE "0a")] : ts \in [1..n -> Texts], last \in {"0a", "0d0a", ""} } : n \in 0..MaxLen}
Ok(x) == Len(x) = 0 \/ ~(x[Len(x)].e = "" /\ x[Len(x)].t = "")

Init ==
  /\ f \in {x \in Files : Ok(x)} /\ f0 = f
  /\ exists \in BOOLEAN /\ (~exists => f = <<>>)
  /\ \E t \in Texts, p \in BOOLEAN, rx \in BOOLEAN, ws \in BOOLEAN, b \in BOOLEAN :
       o = [t |-> t, s |-> Strip(t), present |-> p, rx |-> rx, ws |-> ws, backup |-> b]
  /\ plan = <<"examine">> /\ run = 1 /\ res = "~" /\ bak = [done |-> FALSE, f |-> <<>>]
  /\ \E a \in {1, 2, 9}, w \in {"before", "after"} : fault = [at |-> a, when |-> w]

Terminate(x) == IF Len(x) > 0 /\ x[Len(x)].e = "" THEN [x EXCEPT ![Len(x)].e = "0a"] ELSE x
New == IF o.present THEN Append(Terminate(f), L(o.t, "0a")) ELSE Others(o, f)
Examine ==
  /\ res = "~" /\ plan = <<"examine">>
  /\ IF ~LineChanges(o, f) THEN res' = "unchanged" /\ plan' = <<>>
     ELSE res' = res /\ plan' = (IF o.backup /\ exists THEN <<"backup">> ELSE <<>>) \o <<"write">>
  /\ UNCHANGED <<f, f0, o, fault, run, bak, exists>>
Request ==
  /\ res = "~" /\ plan # <<>> /\ plan[1] # "examine"
  /\ LET hit == run = 1 /\ fault.at = 1
         eff == ~(hit /\ fault.when = "before")
     IN /\ f' = (IF eff /\ plan[1] = "write" THEN New ELSE f)
        /\ exists' = (exists \/ (eff /\ plan[1] = "write"))
        /\ bak' = (IF eff /\ plan[1] = "backup" THEN [done |-> TRUE, f |-> f] ELSE bak)
        /\ plan' = (IF hit THEN <<>> ELSE Tail(plan))
        /\ res' = (IF hit THEN "failed" ELSE IF Len(plan) = 1 THEN "changed" ELSE res)
        /\ fault' = [fault EXCEPT !.at = IF run = 1 THEN @ - 1 ELSE @]
  /\ UNCHANGED <<f0, o, run>>
Again == res # "~" /\ run < 3 /\ run' = run + 1 /\ res' = "~" /\ plan' = <<"examine">> /\ UNCHANGED <<f, f0, o, fault, bak, exists>>
Next == Examine \/ Request \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* a pattern that does not match the line to be added can never be satisfied by adding it
Sensible == o.present /\ o.rx => Rx(o.t)
Result == res \in {"changed", "unchanged"} /\ run = 1 => LineResult(o, f0, f)
Truthful == run = 1 /\ res \in {"changed", "unchanged"} => (res = "changed" <=> f # f0 \/ (o.present /\ ~Has(o, f0)))
Repeat == Sensible /\ run = 3 /\ res # "~" => res = "unchanged"
Complete == f = f0 \/ LineResult(o, f0, f) \/ ~Sensible
OthersKept == [i \in 1..Len(Others(o, f0)) |-> Others(o, f0)[i].t] = [i \in 1..Len(Others(o, f0)) |-> IF i <= Len(Others(o, f)) THEN Others(o, f)[i].t ELSE "?"]
BackupIsOld == bak.done /\ Sensible => bak.f = f0
BackedUp == run = 1 /\ res = "changed" /\ o.backup /\ f0 # <<>> => bak.done /\ bak.f = f0
Ends == <>(run = 3 /\ res # "~")
=============================================================================
