------------------------------ MODULE ErrDefs ------------------------------
(* How failures travel through nested scripts (C28): what they carry, and     *)
(* what of it is printed on the way. A failure remembers the script calls     *)
(* that were active when it first left a script; the output of a failed       *)
(* process is printed once, when it leaves an operation or a script.          *)
EXTENDS Naturals, Sequences
(* f leaves a script that was called by the calls in stack *)
Leaves(f, stack) == [f EXCEPT !.stack = IF f.placed THEN @ ELSE stack, !.placed = TRUE, !.printed = TRUE]
Prints(f) == IF f.proc # "~" /\ ~f.printed THEN <<f.proc>> ELSE <<>>
=============================================================================
