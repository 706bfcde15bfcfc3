------------------------------ MODULE CustDefs ------------------------------
(* What an inventory that replaces parts of the default behaviour means (C29):*)
(* urls, names, module files and settings of its hosts. Urls are [s, h] (s    *)
(* being the scheme, "" if there is none), "~" stands for nothing.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
IsNone(x) == ToString(x) = "\"~\""
NoUrl == [s |-> "~", h |-> "~"]
HasUrl(u) == u.s # "~"
Range(q) == {q[i] : i \in 1..Len(q)}
\* tables of a replaced function: a sequence of [k, v]
Has(t, k) == \E i \in 1..Len(t) : t[i].k = k
Get(t, k) == t[CHOOSE i \in 1..Len(t) : t[i].k = k].v
Err(u) == u.s = "!"

\* S: a scenario. Each hook is [on, t].
Qualify(S, u) == IF ~HasUrl(u) THEN NoUrl
                 ELSE IF S.qualify.on THEN IF Has(S.qualify.t, u) THEN Get(S.qualify.t, u) ELSE u
                 ELSE IF u.s = "" THEN [u EXCEPT !.s = "ssh"] ELSE u
Url(S, h) == Qualify(S, h.url)
\* "!" if there is no name
Name(S, h) == CASE h.name # "~" -> h.name
                [] ~HasUrl(h.url) -> "!"
                [] Err(Url(S, h)) -> "!"
                [] S.extract.on -> IF Has(S.extract.t, Url(S, h)) THEN Get(S.extract.t, Url(S, h)) ELSE Url(S, h).h
                [] Url(S, h).s \in Range(S.schemes) -> Url(S, h).h
                [] OTHER -> "!"
At(S, p) == IF S.base = "" THEN p ELSE S.base \o "/" \o p
\* "~": no module
Module(S, hook, dir, name) == IF hook.on THEN IF Has(hook.t, name) THEN Get(hook.t, name) ELSE "~" ELSE At(S, dir \o "/" \o name \o ".py")
GroupFile(S, g) == IF g.file # "~" THEN At(S, g.file) ELSE Module(S, S.gfile, S.gdir, g.name)
HostFile(S, h) == IF h.file # "~" THEN At(S, h.file) ELSE Module(S, S.hfile, S.hdir, Name(S, h))
Exists(S, p) == p \in Range(S.files)
\* the groups of a host in the order in which they are loaded
GroupsOf(S, h) == SelectSeq(S.groups, LAMBDA g : g.name = "all" \/ g.name \in Range(h.groups))
Bad(S) == \/ \E i \in 1..Len(S.hosts) : HasUrl(S.hosts[i].url) /\ Err(Url(S, S.hosts[i]))
          \/ \E i \in 1..Len(S.hosts) : Name(S, S.hosts[i]) = "!"
          \/ \E i, j \in 1..Len(S.hosts) : i < j /\ Name(S, S.hosts[i]) = Name(S, S.hosts[j])
          \/ \E i \in 1..Len(S.hosts) : LET h == S.hosts[i] IN
                \/ h.file # "~" /\ ~Exists(S, HostFile(S, h))
                \/ \E j \in 1..Len(S.groups) : S.groups[j] \in Range(GroupsOf(S, h)) /\ S.groups[j].file # "~" /\ ~Exists(S, GroupFile(S, S.groups[j]))
\* the modules that are executed for a host
Mods(S, h) ==
  LET gs == GroupsOf(S, h)
      all == [i \in 1..Len(gs) |-> [f |-> GroupFile(S, gs[i]), k |-> "g", n |-> gs[i].name]] \o <<[f |-> HostFile(S, h), k |-> "h", n |-> Name(S, h)]>>
  IN SelectSeq(all, LAMBDA m : Exists(S, m.f))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Loaded(S) == Flat([i \in 1..Len(S.hosts) |-> Mods(S, S.hosts[i])])
\* modules may set how a host is reached; the last one that does so counts
Sets(S, f) == IF Has(S.sets, f) THEN Get(S.sets, f) ELSE [url |-> NoUrl, connector |-> "~"]
LastUrl(S, h) == LET m == SelectSeq(Mods(S, h), LAMBDA x : HasUrl(Sets(S, x.f).url)) IN IF m = <<>> THEN Url(S, h) ELSE Sets(S, m[Len(m)].f).url
LastConn(S, h) == LET m == SelectSeq(Mods(S, h), LAMBDA x : Sets(S, x.f).connector # "~") IN IF m = <<>> THEN "~" ELSE Sets(S, m[Len(m)].f).connector
\* [kind, url]; kind "error" if the host cannot be reached
Contact(S, h) == LET u == LastUrl(S, h) k == LastConn(S, h) IN
  [kind |-> IF k # "~" THEN k ELSE IF HasUrl(u) /\ u.s \in Range(S.schemes) THEN u.s ELSE "error", url |-> u]
Fields == {"file_mode", "dir_mode", "umask", "cwd"}
Default == [file_mode |-> "600", dir_mode |-> "700", umask |-> "077", cwd |-> "/tmp"]
Settings(S) == IF S.settings.on THEN S.settings.v ELSE Default
=============================================================================
