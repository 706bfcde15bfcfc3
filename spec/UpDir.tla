------------------------------- MODULE UpDir -------------------------------
(* Uploading a directory as the sequence of nested operations it consists of: *)
(* all directories from the top, then all files, over every previous remote   *)
(* tree, with a fault in any of them and a repeated run.                      *)
EXTENDS FileDefs, TLC
VARIABLES fs, fs0, todo, fault, run, res, any
vars == <<fs, fs0, todo, fault, run, res, any>>
Env == [users |-> [root |-> 0], uids |-> [x \in {} |-> "~"], groups |-> [root |-> 0], gids |-> [x \in {} |-> "~"]]
Dfl == [file_mode |-> "600", dir_mode |-> "700", owner |-> "root", group |-> "root"]
Keys == {"t", "t/d", "t/f", "t/d/g", "t/z"}
Parent(k) == CASE k = "t" -> "" [] k = "t/d/g" -> "t/d" [] OTHER -> "t"
E(t, m, d, k) == [type |-> t, mode |-> m, owner |-> "root", group |-> "root", data |-> d, parent |-> Parent(k)]
States(k) == {Absent, E("file", "644", "old", k), E("dir", "700", "~", k), E("link", "~", "x", k)}
\* the source consists of t, t/d, t/f and t/d/g; t/z is unrelated
O(k) == [op |-> IF k \in {"t", "t/d"} THEN "dir" ELSE "content", key |-> k, parent |-> Parent(k), present |-> TRUE, touch |-> FALSE, mode |-> "~", owner |-> "~", group |-> "~",
         target |-> "~", data |-> IF k \in {"t", "t/d"} THEN "~" ELSE "new", badarg |-> FALSE]
Plan == <<"t", "t/d", "t/f", "t/d/g">>
Valid(f) == \A k \in DOMAIN f : f[k].parent = "" \/ (f[k].parent \in DOMAIN f /\ f[f[k].parent].type = "dir")
Init ==
  /\ \E a \in [Keys -> UNION {States(k) : k \in Keys}] :
       /\ \A k \in Keys : a[k] \in States(k)
       /\ fs = [k \in {x \in Keys : a[x].type # "absent"} |-> a[k]]
  /\ Valid(fs) /\ fs0 = fs /\ todo = Plan /\ run = 1 /\ res = "~" /\ any = FALSE
  /\ fault \in [at : {1, 2, 3, 4, 9}, when : {"before", "after"}]
Nested ==
  /\ res = "~" /\ todo # <<>>
  /\ LET o == O(todo[1])
         hit == run = 1 /\ fault.at = 5 - Len(todo)
         fate == Fate(fs, Env, o)
         done == fate = "ok" /\ ~(hit /\ fault.when = "before")
     IN /\ fs' = (IF done THEN Update(fs, Env, Dfl, o) ELSE fs)
        /\ any' = (any \/ (done /\ ChangedBy(fs, Env, Dfl, o)))
        /\ IF fate # "ok" \/ hit THEN res' = "failed" /\ todo' = <<>>
           ELSE todo' = Tail(todo) /\ res' = (IF Len(todo) > 1 THEN res ELSE IF any' THEN "changed" ELSE "unchanged")
  /\ UNCHANGED <<fs0, fault, run>>
Again == res # "~" /\ run < 3 /\ run' = run + 1 /\ res' = "~" /\ todo' = Plan /\ any' = FALSE /\ UNCHANGED <<fs, fs0, fault>>
Next == Nested \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AllOk == \A k \in {"t", "t/d", "t/f", "t/d/g"} : At(fs0, k).type \in {"absent", TypeOf(O(k))}
Mirrored == \A k \in {"t", "t/d", "t/f", "t/d/g"} : k \in DOMAIN fs /\ fs[k] = Wanted(fs, Env, Dfl, O(k))
Mirrors == res \in {"changed", "unchanged"} => Mirrored
Unrelated == At(fs, "t/z") = At(fs0, "t/z")
MismatchUntouched == \A k \in {"t", "t/d", "t/f", "t/d/g"} : At(fs0, k).type \notin {"absent", TypeOf(O(k))} => At(fs, k) = At(fs0, k)
Fails == res # "~" /\ ~AllOk => res = "failed"
Truthful == run = 1 /\ res \in {"changed", "unchanged"} => (res = "changed" <=> fs # fs0)
Recovers == AllOk /\ run = 2 /\ res # "~" => res # "failed"
Converges == AllOk /\ run = 3 /\ res # "~" => res = "unchanged"
Tree == Valid(fs)
Ends == <>(run = 3 /\ res # "~")
=============================================================================
