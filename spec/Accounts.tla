------------------------------ MODULE Accounts ------------------------------
(* The user and group operations as the sequence of tool invocations they     *)
(* consist of, from every small account database, with a fault (before or     *)
(* after taking effect) at any invocation and repeated runs.                  *)
EXTENDS AccDefs, TLC
CONSTANTS Comments, WithB
VARIABLES db, db0, o, todo, fault, n, run, res
vars == <<db, db0, o, todo, fault, n, run, res>>
Uids == {"0", "1", "2"}
U(uid, g, gs, c) == [uid |-> uid, group |-> g, groups |-> gs, comment |-> c, home |-> "/dev/null", shell |-> "/sbin/nologin", hash |-> "!", system |-> FALSE]
GroupSets == {[r |-> [gid |-> "0", system |-> FALSE], v |-> [gid |-> "1", system |-> FALSE]],
              [r |-> [gid |-> "0", system |-> FALSE], v |-> [gid |-> "1", system |-> FALSE], a |-> [gid |-> "2", system |-> FALSE]]}
UserSets(gs) == LET As == {U("1", g, s, c) : g \in DOMAIN gs, s \in SUBSET DOMAIN gs, c \in Comments}
                    R == [r |-> U("0", "r", {}, "")]
                IN {R} \cup {[r |-> U("0", "r", {}, ""), a |-> u] : u \in As}
                   \cup (IF WithB THEN {[r |-> U("0", "r", {}, ""), a |-> u, b |-> U("2", g, {}, "")] : u \in As, g \in DOMAIN gs} ELSE {})
DBs == UNION {{[users |-> us, groups |-> gs] : us \in UserSets(gs)} : gs \in GroupSets}
UserOps == {[kind |-> "user", name |-> "a", present |-> p, uid |-> u, group |-> g, hasgroups |-> h.has, groups |-> h.set, append |-> ap, comment |-> c, home |-> "~", shell |-> "~", hash |-> "~", system |-> FALSE, valid |-> TRUE] :
            p \in BOOLEAN, u \in {"~", "0", "2"}, g \in {"~", "v", "0", "x"},
            h \in {[has |-> FALSE, set |-> {}], [has |-> TRUE, set |-> {}], [has |-> TRUE, set |-> {"v"}], [has |-> TRUE, set |-> {"r", "x"}]}, ap \in BOOLEAN, c \in {"~"} \cup Comments}
GroupOps == {[kind |-> "group", name |-> nm, present |-> p, gid |-> g, system |-> FALSE] : nm \in {"a", "v"}, p \in BOOLEAN, g \in {"~", "0", "2", "7"}}
Ops == UserOps \cup GroupOps

(* The tools *)
T(t, a, v) == [tool |-> t, arg |-> a, val |-> v]
FreshId(used) == CHOOSE i \in {"5", "6", "7"} : i \notin used
ToolOk(d, t) ==
  CASE t.tool = "useradd" -> Possible(d, o)
    [] t.tool = "usermod" -> CASE t.arg = "uid" -> ~UidTaken(d, t.val, o.name) [] t.arg = "group" -> Resolve(d, t.val) # "?none"
                               [] t.arg = "groups" -> t.val \subseteq DOMAIN d.groups [] OTHER -> TRUE
    [] t.tool \in {"groupadd", "groupmod"} -> Given(o.gid) => ~GidTaken(d, o.gid, o.name)
    [] t.tool = "groupdel" -> Primary(d, o.name) = {}
    [] OTHER -> TRUE
Apply(d, t) ==
  CASE t.tool = "useradd" ->
         LET uid == IF Given(o.uid) THEN o.uid ELSE FreshId({d.users[x].uid : x \in DOMAIN d.users})
             g == IF Given(o.group) THEN Resolve(d, o.group) ELSE o.name
         IN [users |-> Set(d.users, o.name, U(uid, g, IF o.hasgroups THEN o.groups ELSE {}, Or(o.comment, ""))),
             groups |-> IF Given(o.group) THEN d.groups ELSE Set(d.groups, o.name, [gid |-> FreshId({d.groups[x].gid : x \in DOMAIN d.groups}), system |-> FALSE])]
    [] t.tool = "usermod" -> [d EXCEPT !.users[o.name][t.arg] = IF t.arg = "group" THEN Resolve(d, t.val) ELSE t.val]
    [] t.tool = "userdel" -> [users |-> Drop(d.users, o.name),
                              groups |-> IF d.users[o.name].group = o.name /\ Primary(d, o.name) \cup Members(d, o.name) \subseteq {o.name} THEN Drop(d.groups, o.name) ELSE d.groups]
    [] t.tool = "groupadd" -> [d EXCEPT !.groups = Set(@, o.name, [gid |-> Or(o.gid, FreshId({d.groups[x].gid : x \in DOMAIN d.groups})), system |-> FALSE])]
    [] t.tool = "groupmod" -> [d EXCEPT !.groups[o.name].gid = o.gid]
    [] t.tool = "groupdel" -> [users |-> [x \in DOMAIN d.users |-> [d.users[x] EXCEPT !.groups = @ \ {o.name}]], groups |-> Drop(d.groups, o.name)]
\* one invocation per attribute that differs
Plan(d) ==
  IF o.kind = "group" THEN IF ~o.present THEN IF o.name \in DOMAIN d.groups THEN <<T("groupdel", "~", "~")>> ELSE <<>>
                           ELSE IF o.name \notin DOMAIN d.groups THEN <<T("groupadd", "~", "~")>>
                           ELSE IF Given(o.gid) /\ d.groups[o.name].gid # o.gid THEN <<T("groupmod", "gid", o.gid)>> ELSE <<>>
  ELSE IF ~o.present THEN IF o.name \in DOMAIN d.users THEN <<T("userdel", "~", "~")>> ELSE <<>>
  ELSE IF o.name \notin DOMAIN d.users THEN <<T("useradd", "~", "~")>>
  ELSE LET c == Cur(d, o)
           tg == IF Given(o.group) /\ Resolve(d, o.group) # "?none" THEN Resolve(d, o.group) ELSE o.group
           ws == WantGroups(d, o, c.groups)
       IN (IF Given(o.uid) /\ o.uid # c.uid THEN <<T("usermod", "uid", o.uid)>> ELSE <<>>)
          \o (IF Given(o.group) /\ tg # c.group THEN <<T("usermod", "group", tg)>> ELSE <<>>)
          \o (IF ws # c.groups THEN <<T("usermod", "groups", ws)>> ELSE <<>>)
          \o (IF Given(o.comment) /\ o.comment # c.comment THEN <<T("usermod", "comment", o.comment)>> ELSE <<>>)
Init ==
  /\ db \in DBs /\ db0 = db /\ o \in Ops /\ todo = Plan(db) /\ n = 0 /\ run = 1 /\ res = "~"
  /\ fault \in {[at |-> 9, when |-> "before"]} \cup [at : {1, 2}, when : {"before", "after"}]
Call ==
  /\ res = "~" /\ todo # <<>>
  /\ LET t == todo[1]
         hit == run = 1 /\ fault.at = n + 1
         done == ToolOk(db, t) /\ ~(hit /\ fault.when = "before")
     IN /\ db' = IF done THEN Apply(db, t) ELSE db
        /\ n' = n + 1
        /\ IF hit \/ ~ToolOk(db, t) THEN res' = "failed" /\ todo' = <<>> ELSE res' = res /\ todo' = Tail(todo)
  /\ UNCHANGED <<db0, o, fault, run>>
Done == res = "~" /\ todo = <<>> /\ res' = (IF n > 0 THEN "changed" ELSE "unchanged") /\ UNCHANGED <<db, db0, o, todo, fault, n, run>>
Again == res # "~" /\ run < 3 /\ run' = run + 1 /\ db0' = db /\ res' = "~" /\ todo' = Plan(db) /\ n' = 0 /\ UNCHANGED <<db, o, fault>>
Next == Call \/ Done \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Success == res \in {"changed", "unchanged"}
ReachesState == Success => Reached(db0, db, o)
OnlyPossible == Success => Possible(db0, o)
Truthful == Success => (res = "changed" <=> db # db0) /\ (res = "changed" <=> Pending(db0, o))
IsContained == Contained(db0, db, o)
Recovers == run > 1 /\ res = "failed" => ~Possible(db0, o)
Converges == run = 3 /\ Success => res = "unchanged"
Consistent == \A x \in DOMAIN db.users : db.users[x].group \in DOMAIN db.groups /\ db.users[x].groups \subseteq DOMAIN db.groups
Ends == <>(run = 3 /\ res # "~")
=============================================================================
