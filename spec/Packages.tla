------------------------------ MODULE Packages ------------------------------
(* Package operations: query every package, then one invocation per package   *)
(* that needs it, in any order, with a fault at any of them and reruns.       *)
EXTENDS PkgDefs, TLC
Names == {"p", "q", "r", "s"}
VARIABLES inst, inst0, avail, cmds, o, left, fault, n, run, res
vars == <<inst, inst0, avail, cmds, o, left, fault, n, run, res>>
Init ==
  /\ inst \in SUBSET Names /\ inst0 = inst /\ avail \in {Names, {"p", "q"}} /\ cmds \in {{}, {"apt-get"}, {"pacman", "emerge"}}
  /\ o \in [packages : SUBSET {"p", "q", "r"}, present : BOOLEAN, islist : BOOLEAN, via : {"apt", "portage", "system"}]
  /\ fault \in {[at |-> 9, when |-> "before"]} \cup [at : 1..3, when : {"before", "after"}]
  /\ left = {"?query"} /\ n = 0 /\ run = 1 /\ res = "~"
Query ==
  /\ res = "~" /\ left = {"?query"}
  /\ IF ~o.islist \/ (~Available(cmds, o.via) /\ (o.via = "system" \/ o.packages # {})) THEN res' = "failed" /\ UNCHANGED left
     ELSE left' = Needed(inst, o) /\ UNCHANGED res
  /\ UNCHANGED <<inst, inst0, avail, cmds, o, fault, n, run>>
Invoke ==
  /\ res = "~" /\ left # {"?query"}
  /\ \E p \in left :
       LET hit == run = 1 /\ fault.at = n + 1
           fails == o.present /\ p \notin avail
           done == ~fails /\ ~(hit /\ fault.when = "before")
       IN /\ inst' = IF ~done THEN inst ELSE IF o.present THEN inst \cup {p} ELSE inst \ {p}
          /\ n' = n + 1 /\ left' = left \ {p} /\ res' = IF hit \/ fails THEN "failed" ELSE "~"
  /\ UNCHANGED <<inst0, avail, cmds, o, fault, run>>
Done == res = "~" /\ left = {} /\ res' = (IF n > 0 THEN "changed" ELSE "unchanged") /\ UNCHANGED <<inst, inst0, avail, cmds, o, left, fault, n, run>>
Again == res # "~" /\ run < 3 /\ run' = run + 1 /\ res' = "~" /\ left' = {"?query"} /\ n' = 0 /\ inst0' = inst /\ UNCHANGED <<inst, avail, cmds, o, fault>>
Next == Query \/ Invoke \/ Done \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Success == res \in {"changed", "unchanged"}
Reaches == Success => inst = Want(inst0, o) /\ Possible(inst0, avail, cmds, o)
Truthful == Success => (res = "changed" <=> inst # inst0) /\ (res = "changed" <=> Needed(inst0, o) # {})
Contained == Between(inst0, inst, o)
Recovers == run > 1 /\ res = "failed" => ~Possible(inst0, avail, cmds, o)
Converges == run = 3 /\ Success => res = "unchanged"
Ends == <>(run = 3 /\ res # "~")
=============================================================================
