-------------------------------- MODULE Main --------------------------------
(* One invocation of `fora INVENTORY SCRIPT`: select the hosts, then drive    *)
(* them one after another, each over its own connection, stopping at the      *)
(* first failure.                                                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS HostNames, MaxSel
VARIABLES hosts,    \* sequence of host names of the inventory
          sel,      \* requested selection (empty: all hosts)
          fate,     \* what happens to each host: ok | noconnect | noident | script | killed
          plan, pos, open, log, code, pc
vars == <<hosts, sel, fate, plan, pos, open, log, code, pc>>

RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE LET r == Dedup(SubSeq(s, 1, Len(s) - 1)) e == s[Len(s)]
            IN IF \E i \in 1..Len(r) : r[i] = e THEN r ELSE Append(r, e)
Range(s) == {s[i] : i \in 1..Len(s)}
PlanOf(hs, s) == IF s = <<>> THEN hs ELSE Dedup(s)
Unknown(hs, s) == IF s = <<>> THEN FALSE ELSE \E i \in 1..Len(s) : s[i] \notin Range(hs)

Sels == UNION {[1..k -> HostNames \cup {"ghost"}] : k \in 1..MaxSel}
Init ==
  /\ hosts = <<"h1", "h2", "h3">>
  /\ \/ sel = <<>>
     \/ \E s \in Sels : sel = s
  /\ \E f \in [HostNames -> {"ok", "noconnect", "noident", "script", "killed"}] : fate = f
  /\ plan = <<>> /\ pos = 1 /\ open = {} /\ log = <<>> /\ code = "~" /\ pc = "select"
L(e) == log' = Append(log, e)
Select == /\ pc = "select"
          /\ IF Unknown(hosts, sel) THEN pc' = "done" /\ code' = "failure" /\ UNCHANGED plan
             ELSE pc' = "next" /\ plan' = PlanOf(hosts, sel) /\ UNCHANGED code
          /\ UNCHANGED <<hosts, sel, fate, pos, open, log>>
NextHost ==
        /\ pc = "next"
        /\ IF pos > Len(plan) THEN pc' = "done" /\ code' = "success" /\ UNCHANGED <<open, log>>
           ELSE IF fate[plan[pos]] = "noconnect" THEN pc' = "done" /\ code' = "failure" /\ L(<<"fail", plan[pos]>>) /\ UNCHANGED open
           ELSE pc' = (IF fate[plan[pos]] = "noident" THEN "close" ELSE "script") /\ open' = open \cup {plan[pos]} /\ L(<<"open", plan[pos]>>) /\ UNCHANGED code
        /\ UNCHANGED <<hosts, sel, fate, plan, pos>>
Script == /\ pc = "script" /\ L(<<"script", plan[pos]>>) /\ pc' = "close" /\ UNCHANGED <<hosts, sel, fate, plan, pos, open, code>>
Close == /\ pc = "close" /\ open' = open \ {plan[pos]} /\ L(<<"close", plan[pos]>>)
         /\ IF fate[plan[pos]] = "ok" THEN pc' = "next" /\ pos' = pos + 1 /\ UNCHANGED code
            ELSE pc' = "done" /\ code' = "failure" /\ UNCHANGED pos
         /\ UNCHANGED <<hosts, sel, fate, plan>>
Next == Select \/ NextHost \/ Script \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AtMostOneOpen == Cardinality(open) <= 1
AllClosedAtEnd == pc = "done" => open = {}
UnknownTouchesNothing == Unknown(hosts, sel) => log = <<>>
OncePerHost == \A h \in Range(hosts) : Cardinality({i \in 1..Len(log) : log[i] = <<"script", h>>}) <= 1
OnlySelected == \A i \in 1..Len(log) : sel = <<>> \/ log[i][2] \in Range(sel)
StopsAtFailure == \A i \in 1..Len(log) : log[i][1] = "script" /\ fate[log[i][2]] # "ok" => \A j \in (i + 1)..Len(log) : log[j] = <<"close", log[i][2]>>
SuccessMeansAll == code = "success" => \A h \in Range(plan) : fate[h] = "ok" /\ \E i \in 1..Len(log) : log[i] = <<"script", h>>
FailureIffSomethingFailed == pc = "done" => (code = "failure" <=> Unknown(hosts, sel) \/ \E h \in Range(plan) : fate[h] # "ok")
Ends == <>(pc = "done")
=============================================================================
