------------------------------ MODULE ExecDefs ------------------------------
(* How the settings of a remote command are determined and what the command   *)
(* observes.  "~" stands for "not given".                                     *)
EXTENDS Naturals, Sequences, FiniteSets

Given(v) == v # "~"
Pick(a, b) == IF Given(a) THEN a ELSE b

\* explicit argument, else the active defaults, else the connection's base
Effective(req, dflt, base) ==
  [user |-> Pick(req.user, Pick(dflt.as_user, base.as_user)),
   group |-> Pick(req.group, Pick(dflt.as_group, base.as_group)),
   umask |-> Pick(req.umask, Pick(dflt.umask, base.umask)),
   cwd |-> Pick(req.cwd, Pick(dflt.cwd, base.cwd))]

UserOf(env, u) == IF u \in DOMAIN env.users THEN u
                  ELSE IF u \in DOMAIN env.uids THEN env.uids[u] ELSE "~"
GroupOf(env, g) == IF g \in DOMAIN env.groups THEN g
                   ELSE IF g \in DOMAIN env.gids THEN env.gids[g] ELSE "~"

\* spellings of umasks used in scenarios, and what umask(1) calls them
Umasks == [x \in {"0", "000", "22", "022", "0022", "077", "77", "027", "002", "777", "0o27"} |->
             CASE x \in {"0", "000"} -> "0000"
               [] x \in {"22", "022", "0022"} -> "0022"
               [] x \in {"77", "077"} -> "0077"
               [] x \in {"027", "0o27"} -> "0027"
               [] x = "002" -> "0002"
               [] x = "777" -> "0777"]

\* env.dirs : path spelling -> [real, kind]; kind: dir | private (root only) | file | missing
CwdOk(env, cwd, uid) ==
  /\ cwd \in DOMAIN env.dirs
  /\ env.dirs[cwd].kind = "dir" \/ (env.dirs[cwd].kind = "private" /\ uid = 0)

Uid(env, s) == IF Given(s.user) THEN env.users[UserOf(env, s.user)].uid ELSE env.self.uid
Gid(env, s) == IF Given(s.group) THEN env.groups[GroupOf(env, s.group)].gid
               ELSE IF Given(s.user) THEN env.users[UserOf(env, s.user)].gid ELSE env.self.gid
Groups(env, s) ==
  IF Uid(env, s) = env.self.uid THEN {env.self.groups[i] : i \in 1..Len(env.self.groups)} \cup {Gid(env, s)}
  ELSE {Gid(env, s)} \cup {env.groups[g].gid : g \in {h \in DOMAIN env.groups : \E i \in 1..Len(env.groups[h].members) : env.groups[h].members[i] = UserOf(env, s.user)}}

\* only a privileged dispatcher can become someone else
Permitted(env, s) ==
  env.self.uid = 0 \/ (/\ Given(s.user) => Uid(env, s) = env.self.uid
                       /\ Gid(env, s) = env.self.gid)

SettingsOk(env, s) ==
  /\ Given(s.user) => UserOf(env, s.user) # "~"
  /\ Given(s.group) => GroupOf(env, s.group) # "~"
  /\ Permitted(env, s)
  /\ Given(s.umask) => s.umask \in DOMAIN Umasks
  /\ Given(s.cwd) => CwdOk(env, s.cwd, Uid(env, s))

\* a defaults block is refused when it names something that does not exist
DefaultsOk(env, d) ==
  /\ Given(d.as_user) => UserOf(env, d.as_user) # "~"
  /\ Given(d.as_group) => GroupOf(env, d.as_group) # "~"
  /\ Given(d.umask) => d.umask \in DOMAIN Umasks
  /\ Given(d.cwd) => d.cwd \in DOMAIN env.dirs /\ env.dirs[d.cwd].kind \in {"dir", "private"}

\* what the command must find
Identity(env, s) ==
  [uid |-> Uid(env, s), gid |-> Gid(env, s), groups |-> Groups(env, s),
   umask |-> IF Given(s.umask) THEN Umasks[s.umask] ELSE "0077",
   cwd |-> IF Given(s.cwd) THEN env.dirs[s.cwd].real ELSE env.self.cwd]
=============================================================================
