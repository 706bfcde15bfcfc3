------------------------------ MODULE Errors -------------------------------
(* Failures in nested scripts as a state machine. Scripts call others, fail   *)
(* (by themselves, or by a process run directly or within an operation), and  *)
(* handle failures of what they do by ignoring, re-raising or replacing them. *)
EXTENDS ErrDefs, FiniteSets, TLC
CONSTANTS MaxDepth, MaxSteps
VARIABLES stack,    \* active script calls; an element is the number of the step of the call
          exc,      \* the failure under way, or None
          at,       \* "body" (running), "handle" (a handler may catch exc), "done"
          out,      \* what was printed
          n,        \* number of steps
          ghost     \* where the failure under way was first raised, and the processes that have left a script or operation
vars == <<stack, exc, at, out, n, ghost>>
None == [id |-> 0]
New(p, pr) == [id |-> n + 1, stack |-> <<>>, placed |-> FALSE, proc |-> p, printed |-> pr]
Init == stack = <<>> /\ exc = None /\ at = "body" /\ out = <<>> /\ n = 0 /\ ghost = [raised |-> <<>>, left |-> {}]
Step == n < MaxSteps /\ n' = n + 1
Call == at = "body" /\ Step /\ Len(stack) < MaxDepth /\ stack' = Append(stack, n + 1) /\ UNCHANGED <<exc, at, out, ghost>>
Return == at = "body" /\ IF stack = <<>> THEN at' = "done" /\ UNCHANGED <<stack, exc, out, n, ghost>> ELSE stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<exc, at, out, n, ghost>>
Raise(kind) == /\ at = "body" /\ Step /\ at' = "handle" /\ UNCHANGED stack
               /\ LET p == IF kind = "error" THEN "~" ELSE ToString(n + 1) IN
                  /\ exc' = New(p, kind = "operation")
                  /\ out' = out \o (IF kind = "operation" THEN <<p>> ELSE <<>>)
                  /\ ghost' = [raised |-> stack, left |-> ghost.left \cup (IF kind = "operation" THEN {p} ELSE {})]
Ignore == at = "handle" /\ Step /\ at' = "body" /\ exc' = None /\ UNCHANGED <<stack, out, ghost>>
Replace == at = "handle" /\ Step /\ exc' = New("~", FALSE) /\ at' = "leave" /\ ghost' = [ghost EXCEPT !.raised = stack] /\ UNCHANGED <<stack, out>>
Pass == at = "handle" /\ at' = "leave" /\ UNCHANGED <<stack, exc, out, n, ghost>>
Leave == /\ at = "leave" /\ out' = out \o Prints(exc) /\ exc' = Leaves(exc, stack)
         /\ ghost' = [ghost EXCEPT !.left = @ \cup (IF exc.proc = "~" THEN {} ELSE {exc.proc})]
         /\ IF stack = <<>> THEN at' = "done" /\ UNCHANGED stack ELSE at' = "handle" /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
         /\ UNCHANGED n
Next == Call \/ Return \/ (\E k \in {"error", "process", "operation"} : Raise(k)) \/ Ignore \/ Replace \/ Pass \/ Leave
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Range(s) == {s[i] : i \in 1..Len(s)}
(* the reported calls are those that were active where the failure was raised *)
TrueOrigin == (at = "done" /\ exc # None) => exc.stack = ghost.raised
PrintedOnce == Cardinality(Range(out)) = Len(out)
PrintedIffLeft == Range(out) = ghost.left
(* what is printed does not depend on who handles it later *)
NothingUnprinted == at = "handle" /\ exc.placed => (exc.proc = "~" \/ exc.proc \in Range(out))
Ends == <>(at = "done")
=============================================================================
