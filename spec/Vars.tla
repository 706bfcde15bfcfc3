-------------------------------- MODULE Vars -------------------------------
(* All short histories of assignments, calls, failures and lookups.           *)
EXTENDS VarDefs
CONSTANTS Names, MaxDepth, MaxSteps
Vals == {[t |-> "str", s |-> "a"], [t |-> "module", s |-> ""]}
OwnA == ("name" :> [t |-> "str", s |-> "h"])
VARIABLES hv, st, steps, saved, last
vars == <<hv, st, steps, saved, last>>
HostVal == [t |-> "str", s |-> "host"]
Init == /\ hv \in {NoVars, "x" :> HostVal} /\ st = <<NoVars>> /\ steps = 0 /\ saved = <<>> /\ last = [n |-> "x", v |-> Undef]
T == st[Len(st)]
Tick == steps < MaxSteps /\ steps' = steps + 1
Assign == \E n \in Names, v \in Vals : st' = [st EXCEPT ![Len(st)] = Put(@, n, v)] /\ UNCHANGED <<hv, saved, last>>
Delete == \E n \in DOMAIN T : st' = [st EXCEPT ![Len(st)] = Drop(@, n)] /\ UNCHANGED <<hv, saved, last>>
SetHost == \E n \in Names \ (Internal \cup Private) : hv' = Put(hv, n, HostVal) /\ UNCHANGED <<st, saved, last>>
Call == Len(st) < MaxDepth /\ saved' = Append(saved, T) /\ st' = Append(st, NoVars) /\ UNCHANGED <<hv, last>>
Leave == Len(st) > 1 /\ st' = SubSeq(st, 1, Len(st) - 1) /\ saved' = SubSeq(saved, 1, Len(saved) - 1) /\ UNCHANGED <<hv, last>>   \* by return or failure
Look == \E n \in Names : last' = [n |-> n, v |-> OnHost(OwnA, hv, T, n)] /\ UNCHANGED <<hv, st, saved>>
Next == Tick /\ (Assign \/ Delete \/ SetHost \/ Call \/ Leave \/ Look)
Spec == Init /\ [][Next]_vars
Sees(n) == OnHost(OwnA, hv, T, n)
HostWins == \A n \in Names : (n \in DOMAIN hv /\ n \notin DOMAIN OwnA /\ n \notin Private) => Sees(n) = hv[n]
OnlyRunning == \A n \in Names : (n \notin DOMAIN hv /\ n \notin DOMAIN OwnA /\ n \notin DOMAIN T) => Sees(n) = Undef
NeverInternal == \A n \in Names \cap (Internal \cup Private) : Sees(n) \in ({Undef} \cup {OwnA[k] : k \in DOMAIN OwnA})
NeverModule == \A n \in Names : Sees(n).t # "module"
CallerKept == \A i \in 1..Len(saved) : saved[i] = st[i]
=============================================================================
