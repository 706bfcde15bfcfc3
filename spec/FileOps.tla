------------------------------ MODULE FileOps ------------------------------
(* The remote requests a file operation consists of, with every request       *)
(* possibly failing before or after it took effect, dry runs, and a repeated  *)
(* run without faults.  Checks that the declarative outcome of FileDefs is    *)
(* reached, that nothing else is touched, and that the operation converges.   *)
EXTENDS FileDefs, TLC
CONSTANT Keys
VARIABLES fs, fs0, o, dry, plan, fault, run, res, first
vars == <<fs, fs0, o, dry, plan, fault, run, res, first>>

Env == [users |-> [root |-> 0, u1 |-> 1], uids |-> [x \in {"1"} |-> "u1"], groups |-> [root |-> 0, g1 |-> 1], gids |-> [x \in {"1"} |-> "g1"]]
Dfl == [file_mode |-> "600", dir_mode |-> "700", owner |-> "root", group |-> "root"]
Parent(k) == IF k = "s/x" THEN "s" ELSE ""
E(t, m, ow, d, k) == [type |-> t, mode |-> m, owner |-> ow, group |-> "root", data |-> d, parent |-> Parent(k)]
Entries(k) == {Absent, E("file", "600", "root", "x", k), E("file", "4755", "u1", "xA", k), E("dir", "2755", "root", "~", k), E("link", "~", "u1", "t1", k)}
Ops == [op : {"dir", "file", "link", "content"}, key : Keys, present : BOOLEAN, touch : {FALSE}, mode : {"~", "4755", "9"}, owner : {"~", "1", "ghost"}, group : {"~"},
        target : {"t2"}, data : {"xA"}, badarg : {FALSE}]

Init ==
  /\ \E s \in {Absent, E("dir", "700", "root", "~", "s"), E("file", "600", "root", "x", "s")}, a \in Entries("a"), x \in Entries("s/x") :
       fs = [k \in ({k2 \in {"s", "a", "s/x"} : (CASE k2 = "s" -> s [] k2 = "a" -> a [] OTHER -> x) # Absent} \ (IF s.type = "dir" THEN {} ELSE {"s/x"})) |->
               (CASE k = "s" -> s [] k = "a" -> a [] OTHER -> x)]
  /\ fs0 = fs
  /\ \E q \in Ops : /\ (q.op \in {"link"} => q.mode = "~") /\ (q.op = "content" => q.present)
                    /\ o = [x \in DOMAIN q \cup {"parent"} |-> IF x = "parent" THEN Parent(q.key) ELSE q[x]]
  /\ dry \in BOOLEAN /\ plan = <<"examine">> /\ res = "~" /\ run = 1 /\ first = "~"
  /\ \E f \in {[at |-> 99, when |-> "before"]} \cup [at : 1..4, when : {"before", "after"}] : fault = f

\* the effect of one request; chown clears the special bits of an executable file
Clear(m) == IF m = "4755" THEN "755" ELSE m
Set(k, e) == [p \in DOMAIN fs \cup {k} |-> IF p = k THEN e ELSE fs[p]]
A == Attr(Env, Dfl, o)
Effect(r) ==
  LET e == At(fs, o.key) IN
  CASE r = "create" -> Set(o.key, [type |-> TypeOf(o), mode |-> IF o.op = "link" THEN "~" ELSE "600", owner |-> "root", group |-> "root", data |-> NewData(fs, o), parent |-> o.parent])
    [] r = "relink" -> Set(o.key, [e EXCEPT !.data = o.target, !.owner = "root", !.group = "root"])
    [] r = "upload" -> Set(o.key, Wanted(fs, Env, Dfl, o))
    [] r = "chown" -> Set(o.key, [e EXCEPT !.owner = A.owner, !.group = A.group, !.mode = IF o.op = "dir" THEN @ ELSE Clear(@)])
    [] r = "chmod" -> Set(o.key, [e EXCEPT !.mode = A.mode])
    [] r = "remove" -> Update(fs, Env, Dfl, o)
    [] OTHER -> fs
\* requests fail by themselves when the parent directory is missing
Possible(r) == r \in {"create", "upload"} => ParentOk(fs, o)

Requests ==
  LET e == At(fs, o.key) w == Wanted(fs, Env, Dfl, o) IN
  IF ~o.present THEN (IF e.type = "absent" THEN <<>> ELSE <<"remove">>)
  ELSE IF o.op = "content" THEN
     IF e.type = "absent" \/ e.data # w.data THEN <<"upload">>
     ELSE (IF e.owner # w.owner \/ e.group # w.group THEN <<"chown">> ELSE <<>>) \o (IF e.mode # w.mode \/ e.owner # w.owner \/ e.group # w.group THEN <<"chmod">> ELSE <<>>)
  ELSE (IF e.type = "absent" THEN <<"create">> ELSE IF e.data # w.data THEN <<"relink">> ELSE <<>>)
       \o (IF e.type = "absent" \/ e.data # w.data \/ e.owner # w.owner \/ e.group # w.group THEN <<"chown">> ELSE <<>>)
       \o (IF TypeOf(o) # "link" /\ (e.type = "absent" \/ e.mode # w.mode \/ e.owner # w.owner \/ e.group # w.group) THEN <<"chmod">> ELSE <<>>)

Examine ==
  /\ res = "~" /\ plan # <<>> /\ plan[1] = "examine"
  /\ IF Fate(fs, Env, o) \in {"invalid", "mismatch"} \/ (o.parent # "" /\ At(fs, o.parent).type = "file") THEN res' = "failed" /\ plan' = <<>>
     ELSE IF dry \/ Requests = <<>> THEN res' = (IF ChangedBy(fs, Env, Dfl, o) THEN "changed" ELSE "unchanged") /\ plan' = <<>>
     ELSE res' = res /\ plan' = Requests
  /\ UNCHANGED <<fs, fs0, o, dry, fault, run, first>>
Request ==
  /\ res = "~" /\ plan # <<>> /\ plan[1] # "examine"
  /\ LET r == plan[1]
         n == fault.at - 1
         hit == run = 1 /\ fault.at = 1
     IN /\ fs' = (IF (hit /\ fault.when = "before") \/ ~Possible(r) THEN fs ELSE Effect(r))
        /\ IF hit \/ ~Possible(r) THEN res' = "failed" /\ plan' = <<>>
           ELSE plan' = Tail(plan) /\ res' = (IF Len(plan) = 1 THEN "changed" ELSE res)
        /\ fault' = [fault EXCEPT !.at = IF run = 1 THEN n ELSE @]
  /\ UNCHANGED <<fs0, o, dry, run, first>>
Again ==
  /\ res # "~" /\ run < 3
  /\ run' = run + 1 /\ res' = "~" /\ plan' = <<"examine">> /\ first' = (IF run = 1 THEN res ELSE first)
  /\ UNCHANGED <<fs, fs0, o, dry, fault>>
Next == Examine \/ Request \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Possibly == Fate(fs0, Env, o) = "ok"
ReachesRequestedState == res \in {"changed", "unchanged"} /\ ~dry => fs = Update(fs, Env, Dfl, o)
ExactlyRequested == res = "changed" /\ ~dry /\ run = 1 => fs = Update(fs0, Env, Dfl, o)
ChangeIsTruthful == run = 1 /\ ~dry /\ res \in {"changed", "unchanged"} => (res = "changed" <=> fs # fs0)
Converges == run = 3 /\ res # "~" /\ Possibly /\ ~dry => res = "unchanged"
RecoversFromFault == run = 2 /\ res # "~" /\ Possibly => res # "failed"
DryRunIsPure == dry => fs = fs0
DryRunPredicts == dry /\ run = 1 /\ res # "~" /\ Possibly => (res = "changed" <=> ChangedBy(fs0, Env, Dfl, o))
NothingElseTouched == \A p \in (DOMAIN fs \cup DOMAIN fs0) \ ({o.key} \cup Below(fs0, o.key)) : At(fs, p) = At(fs0, p)
MismatchUntouched == Fate(fs0, Env, o) \in {"invalid", "mismatch"} => fs = fs0
ContentComplete == At(fs, o.key).type = "file" => At(fs, o.key).data \in {"x", "xA"} /\ (At(fs0, o.key).type = "file" => At(fs, o.key).data \in {At(fs0, o.key).data, NewData(fs0, o)})
Ends == <>(run = 3 /\ res # "~")
=============================================================================
