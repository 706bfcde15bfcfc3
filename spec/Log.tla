-------------------------------- MODULE Log --------------------------------
(* Emitting a difference as a state machine: both contents are walked line by *)
(* line; a line is kept, removed or added; hunks are opened and closed        *)
(* anywhere outside of which only kept lines occur.  Whatever is emitted that *)
(* way must be accepted as a difference, lead from old to new and back, and   *)
(* what is accepted for one pair is accepted for no other new content.        *)
EXTENDS LogDefs, TLC
CONSTANTS MaxLen
VARIABLES old, new, i, j, hs, cur, done
vars == <<old, new, i, j, hs, cur, done>>
Alpha == {"a", "b"}
Seqs == UNION {[1..n -> Alpha] : n \in 0..MaxLen}
NoHunk == <<>>
Init == old \in Seqs /\ new \in Seqs /\ i = 1 /\ j = 1 /\ hs = <<>> /\ cur = NoHunk /\ done = FALSE
InHunk == cur # NoHunk
Open == ~done /\ ~InHunk /\ cur' = <<[i |-> i, j |-> j, lines |-> <<>>]>> /\ UNCHANGED <<old, new, i, j, hs, done>>
Push(l) == cur' = <<[cur[1] EXCEPT !.lines = Append(@, l)]>>
Keep == /\ ~done /\ i <= Len(old) /\ j <= Len(new) /\ old[i] = new[j] /\ i' = i + 1 /\ j' = j + 1
        /\ IF InHunk THEN Push(<<" ", old[i]>>) ELSE UNCHANGED cur
        /\ UNCHANGED <<old, new, hs, done>>
Remove == ~done /\ InHunk /\ i <= Len(old) /\ Push(<<"-", old[i]>>) /\ i' = i + 1 /\ UNCHANGED <<old, new, j, hs, done>>
Add == ~done /\ InHunk /\ j <= Len(new) /\ Push(<<"+", new[j]>>) /\ j' = j + 1 /\ UNCHANGED <<old, new, i, hs, done>>
Close == /\ ~done /\ InHunk /\ CountSign(cur[1].lines, {"-", "+"}) > 0
         /\ LET al == i - cur[1].i bl == j - cur[1].j IN
            hs' = Append(hs, [a |-> IF al = 0 THEN cur[1].i - 1 ELSE cur[1].i, al |-> al, b |-> IF bl = 0 THEN cur[1].j - 1 ELSE cur[1].j, bl |-> bl, lines |-> cur[1].lines])
         /\ cur' = NoHunk /\ UNCHANGED <<old, new, i, j, done>>
End == ~done /\ ~InHunk /\ i > Len(old) /\ j > Len(new) /\ done' = TRUE /\ UNCHANGED <<old, new, i, j, hs, cur>>
Next == Open \/ Keep \/ Remove \/ Add \/ Close \/ End
Spec == Init /\ [][Next]_vars
Accepted == done => DiffOK(old, new, hs)
Reversible == done => DiffOK(new, old, Reverse(hs))
Determines == done => \A n \in Seqs : DiffOK(old, n, hs) => n = new
NothingIfEqual == done /\ hs = <<>> => old = new
=============================================================================
