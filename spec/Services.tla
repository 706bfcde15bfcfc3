------------------------------ MODULE Services ------------------------------
(* Service operations as commands to the service manager: every unit state,   *)
(* request, order of the commands and position of a fault; reruns.            *)
EXTENDS SvcDefs, TLC
VARIABLES u, u0, o, left, log, fault, n, run, res
vars == <<u, u0, o, left, log, fault, n, run, res>>
Units == [active : {"active", "inactive", "failed", "activating", "deactivating", "reloading"}, enabled : {"enabled", "disabled", "masked"}, broken : BOOLEAN]
Init ==
  /\ u \in Units /\ u0 = u /\ o \in [state : {"~", "started", "stopped", "restarted", "reloaded", "bogus"}, enabled : {"~", "yes", "no"}]
  /\ fault \in {[at |-> 9, when |-> "before"]} \cup [at : 1..2, when : {"before", "after"}]
  /\ left = {"?query"} /\ log = {} /\ n = 0 /\ run = 1 /\ res = "~"
Query ==
  /\ res = "~" /\ left = {"?query"}
  /\ IF ~ValidState(o) THEN res' = "failed" /\ UNCHANGED left ELSE left' = Acts(u, o) /\ UNCHANGED res
  /\ UNCHANGED <<u, u0, o, log, fault, n, run>>
Invoke ==
  /\ res = "~" /\ left # {"?query"}
  /\ \E a \in left :
       LET hit == run = 1 /\ fault.at = n + 1
           done == CmdOk(u, a) /\ ~(hit /\ fault.when = "before")
       IN /\ u' = IF done THEN Do(u, a) ELSE IF ~CmdOk(u, a) /\ u.broken /\ u.enabled # "masked" /\ a \in {"start", "restart"} THEN [u EXCEPT !.active = "failed"] ELSE u
          /\ log' = IF done THEN log \cup {a} ELSE log
          /\ n' = n + 1 /\ left' = left \ {a} /\ res' = IF hit \/ ~CmdOk(u, a) THEN "failed" ELSE "~"
  /\ UNCHANGED <<u0, o, fault, run>>
Done == res = "~" /\ left = {} /\ res' = (IF n > 0 THEN "changed" ELSE "unchanged") /\ UNCHANGED <<u, u0, o, left, log, fault, n, run>>
Again == res # "~" /\ run < 3 /\ run' = run + 1 /\ res' = "~" /\ left' = {"?query"} /\ n' = 0 /\ u0' = u /\ log' = {} /\ UNCHANGED <<u, o, fault>>
Next == Query \/ Invoke \/ Done \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Success == res \in {"changed", "unchanged"}
Reaches == Success => Satisfied(u0, u, o)
Truthful == Success => (res = "changed" <=> log # {}) /\ (log # {} <=> u # u0 \/ o.state \in {"restarted", "reloaded"})
Needed == Success => log = Acts(u0, o)
InvalidUntouched == ~ValidState(o) => u = u0
Fails == Success => ValidState(o)
Converges == run = 3 /\ Success /\ o.state \notin {"restarted", "reloaded"} => (run = 3 => res = "unchanged" \/ u0.active \in {"failed", "activating"})
Ends == <>(run = 3 /\ res # "~")
=============================================================================
