------------------------------- MODULE AccDefs -------------------------------
(* Accounts of a host. db.users: name -> [uid, group, groups, comment, home,  *)
(* shell, hash, system], db.groups: name -> [gid, system]. Ids are strings,   *)
(* memberships are sets. "~" means: not given.                                *)
EXTENDS Naturals, Sequences, FiniteSets
Given(x) == x # "~"
Or(x, y) == IF Given(x) THEN x ELSE y
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* a group may be given by its name or id
Resolve(db, g) == IF g \in DOMAIN db.groups THEN g
                  ELSE IF \E n \in DOMAIN db.groups : db.groups[n].gid = g THEN CHOOSE n \in DOMAIN db.groups : db.groups[n].gid = g ELSE "?none"
UidTaken(db, uid, me) == \E n \in DOMAIN db.users \ {me} : db.users[n].uid = uid
GidTaken(db, gid, me) == \E n \in DOMAIN db.groups \ {me} : db.groups[n].gid = gid
Primary(db, g) == {n \in DOMAIN db.users : db.users[n].group = g}
Members(db, g) == {n \in DOMAIN db.users : g \in db.users[n].groups}

------------------------------------------------------------------------------
(* What is asked for: o = [kind |-> "user"/"group", name, present, ...]       *)
Creates(db, o) == o.present /\ o.name \notin (IF o.kind = "user" THEN DOMAIN db.users ELSE DOMAIN db.groups)
Cur(db, o) == db.users[o.name]
WantGroups(db, o, cur) == IF ~o.hasgroups THEN cur ELSE IF o.append THEN cur \cup o.groups ELSE o.groups
\* Could the host's tools carry it out at all?
UserPossible(db, o) ==
  IF ~o.present THEN TRUE
  ELSE /\ o.valid
       /\ (Given(o.uid) => ~UidTaken(db, o.uid, o.name))
       /\ (Given(o.group) => Resolve(db, o.group) # "?none")
       /\ (o.hasgroups => o.groups \subseteq DOMAIN db.groups)
       /\ (Creates(db, o) /\ ~Given(o.group) => o.name \notin DOMAIN db.groups)
GroupPossible(db, o) == IF ~o.present THEN o.name \in DOMAIN db.groups => Primary(db, o.name) = {}
                        ELSE Given(o.gid) => ~GidTaken(db, o.gid, o.name)
Possible(db, o) == IF o.kind = "user" THEN UserPossible(db, o) ELSE GroupPossible(db, o)

\* The requested attributes of an existing user; everything not given stays
WantUser(db, o) ==
  LET c == Cur(db, o) IN
  [c EXCEPT !.uid = Or(o.uid, @), !.group = IF Given(o.group) THEN Resolve(db, o.group) ELSE @, !.groups = WantGroups(db, o, @),
            !.comment = Or(o.comment, @), !.home = Or(o.home, @), !.shell = Or(o.shell, @), !.hash = Or(o.hash, @)]
\* A new user: what is given, and the documented values for everything else
FitsNewUser(db, o, u) ==
  /\ IF Given(o.uid) THEN u.uid = o.uid ELSE ~UidTaken(db, u.uid, o.name)
  /\ u.group = (IF Given(o.group) THEN Resolve(db, o.group) ELSE o.name)
  /\ u.groups = (IF o.hasgroups THEN o.groups ELSE {})
  /\ u.comment = Or(o.comment, "") /\ u.home = Or(o.home, "/dev/null") /\ u.shell = Or(o.shell, "/sbin/nologin") /\ u.hash = Or(o.hash, "!")
  /\ u.system = o.system
Others(db, g, o) ==    \* no other account is affected
  /\ DOMAIN g.users \ {o.name} = DOMAIN db.users \ {o.name}
  /\ \A n \in DOMAIN db.users \ {o.name} : g.users[n] = db.users[n]
OtherGroups(db, g, names) == DOMAIN g.groups \ names = DOMAIN db.groups \ names /\ \A n \in DOMAIN db.groups \ names : g.groups[n] = db.groups[n]
(* Does g result from carrying out o on db?                                   *)
UserReached(db, g, o) ==
  /\ Others(db, g, o)
  /\ IF ~o.present
     THEN /\ o.name \notin DOMAIN g.users
          /\ \/ g.groups = db.groups
             \* userdel also removes a group of the same name that nobody uses any more
             \/ /\ o.name \in DOMAIN db.users /\ o.name \in DOMAIN db.groups /\ g.groups = Drop(db.groups, o.name)
                /\ Primary(db, o.name) \cup Members(db, o.name) \subseteq {o.name}
     ELSE IF o.name \in DOMAIN db.users THEN o.name \in DOMAIN g.users /\ g.users[o.name] = WantUser(db, o) /\ g.groups = db.groups
     ELSE /\ o.name \in DOMAIN g.users /\ FitsNewUser(db, o, g.users[o.name])
          /\ IF Given(o.group) THEN g.groups = db.groups
             ELSE /\ DOMAIN g.groups = DOMAIN db.groups \cup {o.name} /\ OtherGroups(db, g, {o.name})
                  /\ ~GidTaken(db, g.groups[o.name].gid, o.name)
GroupReached(db, g, o) ==
  IF ~o.present
  THEN /\ g.groups = Drop(db.groups, o.name) /\ DOMAIN g.users = DOMAIN db.users
       /\ \A n \in DOMAIN db.users : g.users[n] = [db.users[n] EXCEPT !.groups = @ \ {o.name}]
  ELSE /\ g.users = db.users /\ DOMAIN g.groups = DOMAIN db.groups \cup {o.name} /\ OtherGroups(db, g, {o.name})
       /\ LET x == g.groups[o.name] IN
          IF o.name \in DOMAIN db.groups THEN x = [db.groups[o.name] EXCEPT !.gid = Or(o.gid, @)]
          ELSE x.system = o.system /\ (IF Given(o.gid) THEN x.gid = o.gid ELSE ~GidTaken(db, x.gid, o.name))
Reached(db, g, o) == IF o.kind = "user" THEN UserReached(db, g, o) ELSE GroupReached(db, g, o)
\* Is there anything to do?
Pending(db, o) == IF o.kind = "user" THEN IF ~o.present THEN o.name \in DOMAIN db.users ELSE o.name \notin DOMAIN db.users \/ WantUser(db, o) # Cur(db, o)
                  ELSE IF ~o.present THEN o.name \in DOMAIN db.groups ELSE o.name \notin DOMAIN db.groups \/ (Given(o.gid) /\ db.groups[o.name].gid # o.gid)
(* An interrupted or failed operation touches nothing but its own account,    *)
(* and every attribute of it is either the previous or the requested one.     *)
Contained(db, g, o) ==
  IF o.kind = "group" THEN /\ OtherGroups(db, g, {o.name})
                           /\ g.users = db.users \/ GroupReached(db, g, o)
                           /\ g.groups = db.groups \/ GroupReached(db, g, o)
  ELSE /\ Others(db, g, o)
       /\ g.groups = db.groups \/ UserReached(db, g, o)
       /\ \/ o.name \notin DOMAIN g.users /\ (o.name \notin DOMAIN db.users \/ ~o.present)
          \/ o.name \notin DOMAIN db.users /\ UserReached(db, g, o)
          \/ /\ o.name \in DOMAIN db.users /\ o.name \in DOMAIN g.users /\ o.present
             /\ LET w == WantUser(db, o) c == Cur(db, o) x == g.users[o.name] IN \A k \in DOMAIN c : x[k] \in {c[k], w[k]}
          \/ o.name \in DOMAIN db.users /\ o.name \in DOMAIN g.users /\ g.users[o.name] = Cur(db, o)
=============================================================================
