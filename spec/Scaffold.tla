------------------------------ MODULE Scaffold ------------------------------
(* --init as a state machine: ask if the directory is not empty, then create  *)
(* one file after the other. Paths may be taken by the user's files or        *)
(* directories; d is a directory that contains the scaffold file f2.          *)
EXTENDS ScafDefs, TLC
Own == {"f1", "f2", "d"}
Paths == Own \cup {"o"}
VARIABLES dir, before, answer, pc, code
vars == <<dir, before, answer, pc, code>>
TypeOf(p) == IF p = "d" THEN {"none", "user", "dir"} ELSE {"none", "user", "dir", "scaf"}
Init == /\ dir \in {x \in [Paths -> {"none", "user", "dir", "scaf"}] : (\A p \in Paths : x[p] \in TypeOf(p)) /\ (x["f2"] # "none" => x["d"] = "dir") /\ x["o"] # "scaf"}
        /\ before = dir /\ answer \in {"y", "n"} /\ pc = "check" /\ code = "~"
Empty == \A p \in Paths : dir[p] = "none"
Check == pc = "check" /\ IF Empty \/ answer = "y" THEN pc' = "make" /\ UNCHANGED <<dir, before, answer, code>>
                         ELSE pc' = "done" /\ code' = "failure" /\ UNCHANGED <<dir, before, answer>>
MkDir == pc = "make" /\ dir["d"] # "dir" /\ (IF dir["d"] = "none" THEN dir' = [dir EXCEPT !["d"] = "dir"] /\ UNCHANGED <<pc, code>>
                                             ELSE pc' = "done" /\ code' = "failure" /\ UNCHANGED dir) /\ UNCHANGED <<before, answer>>
Write(p) == /\ pc = "make" /\ dir["d"] = "dir" /\ dir[p] # "scaf"
            /\ (IF dir[p] = "dir" THEN pc' = "done" /\ code' = "failure" /\ UNCHANGED dir
                ELSE dir' = [dir EXCEPT ![p] = "scaf"] /\ UNCHANGED <<pc, code>>) /\ UNCHANGED <<before, answer>>
Complete == dir["f1"] = "scaf" /\ dir["f2"] = "scaf"
End == pc = "make" /\ Complete /\ pc' = "done" /\ code' = "success" /\ UNCHANGED <<dir, before, answer>>
Next == Check \/ MkDir \/ (\E p \in {"f1", "f2"} : Write(p)) \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OthersUntouched == dir["o"] = before["o"]
NothingWithoutConsent == answer = "n" /\ (\E p \in Paths : before[p] # "none") => dir = before
SuccessIsComplete == code = "success" => Complete
NoDirectoryLost == \A p \in Paths : before[p] = "dir" => dir[p] = "dir"
UserFilesOnlyReplaced == \A p \in Paths : before[p] = "user" => dir[p] \in {"user", "scaf"}
Ends == <>(pc = "done")
=============================================================================
