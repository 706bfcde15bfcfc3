--------------------------- MODULE InventoryDefs ---------------------------
(* Meaning of an inventory: which declarations are valid, the order in which  *)
(* modules may be executed for a host, the variables each module sees, and    *)
(* which combinations of definitions are ambiguous.  Pure operators, shared   *)
(* by the state machine (Inventory.tla) and trace validation.                 *)
(*                                                                            *)
(* cfg ==                                                                     *)
(*  [ groups : Seq([name, after: Seq, before: Seq, file]),  declared groups   *)
(*    auto   : BOOLEAN,   no explicit group list; derived from the hosts      *)
(*    hosts  : Seq([name, groups: Seq, file]),                                *)
(*    bad    : STRING,    "none" or the kind of malformed declaration         *)
(*    shared : BOOLEAN,   declared host variables share one object            *)
(*    vars   : Seq(STRING),                                                   *)
(*    act    : [module key -> [var -> action]] ]                              *)
(* module keys: "inv", "d:<host>" (declared vars), "g:<group>", "h:<host>"    *)
(* actions: none | assign | append | assignnone | assigneq (an equal new value) *)
(* file: default (exists) | nofile | explicit (exists) | missing (explicit)   *)
(* A value is the sequence of tags of the modules that contributed to it;     *)
(* Undef stands for an undefined variable.                                    *)
EXTENDS Naturals, Sequences, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}
Undef == <<"~">>
NoneVal == <<"None">>

RECURSIVE TC(_)
TC(R) == LET N == {e[1] : e \in R} \cup {e[2] : e \in R}
             R2 == R \cup {<<e[1], f[2]>> : <<e, f>> \in {<<x, y>> \in R \X R : x[2] = y[1]}}
         IN IF R2 = R THEN R ELSE TC(R2)

HostNames(cfg) == [i \in 1..Len(cfg.hosts) |-> cfg.hosts[i].name]
HostByName(cfg, h) == cfg.hosts[CHOOSE i \in 1..Len(cfg.hosts) : cfg.hosts[i].name = h]
MembersOf(host) == Range(host.groups) \cup {"all"}

\* The declared groups; with `auto` they are derived from the hosts' memberships.
GroupDecls(cfg) ==
  IF cfg.auto
  THEN {[name |-> g, after |-> <<>>, before |-> <<>>, file |-> "default"] : g \in UNION {MembersOf(cfg.hosts[i]) : i \in 1..Len(cfg.hosts)}}
  ELSE Range(cfg.groups)

GroupNames(cfg) == {d.name : d \in GroupDecls(cfg)} \cup {"all"}
GroupFile(cfg, g) ==
  IF \E i \in 1..Len(cfg.groups) : cfg.groups[i].name = g
  THEN cfg.groups[CHOOSE i \in 1..Len(cfg.groups) : cfg.groups[i].name = g].file
  ELSE "nofile"

\* <<p, c>> : p must be loaded before c
Edges(cfg) ==
  UNION {  {<<a, d.name>> : a \in Range(d.after)}
      \cup {<<d.name, b>> : b \in Range(d.before)}
      \cup (IF d.name = "all" THEN {} ELSE {<<"all", d.name>>})
      : d \in GroupDecls(cfg)}

Before(cfg) == TC(Edges(cfg))

HasDup(s) == \E i, j \in 1..Len(s) : i < j /\ s[i] = s[j]

DeclErrors(cfg) ==
     (IF cfg.bad # "none" THEN {cfg.bad} ELSE {})
\cup (IF HasDup(HostNames(cfg)) THEN {"duplicate-host"} ELSE {})
\cup (IF ~cfg.auto /\ HasDup([i \in 1..Len(cfg.groups) |-> cfg.groups[i].name]) THEN {"duplicate-group"} ELSE {})
\cup (IF \E i \in 1..Len(cfg.hosts) : ~(MembersOf(cfg.hosts[i]) \subseteq GroupNames(cfg)) THEN {"unknown-group-in-host"} ELSE {})
\cup (IF \E d \in GroupDecls(cfg) : ~((Range(d.after) \cup Range(d.before)) \subseteq GroupNames(cfg)) THEN {"unknown-group-in-order"} ELSE {})
\cup (IF \E e \in Edges(cfg) : e[1] = e[2] THEN {"self-dependency"} ELSE {})
\cup (IF \E e \in Before(cfg) : e[1] = e[2] THEN {"cycle"} ELSE {})

\* Explicitly named module files that are needed by some host but do not exist.
MissingFiles(cfg) ==
     {cfg.hosts[i].name : i \in {j \in 1..Len(cfg.hosts) : cfg.hosts[j].file = "missing"}}
\cup {g \in UNION {MembersOf(cfg.hosts[i]) : i \in 1..Len(cfg.hosts)} : GroupFile(cfg, g) = "missing"}

HasFile(f) == f \in {"default", "explicit"}

\* Group modules that must be executed for a host (those that exist as files)
GroupModules(cfg, host) == {g \in MembersOf(host) : HasFile(GroupFile(cfg, g))}

Act(cfg, key, v) == IF key \in DOMAIN cfg.act THEN cfg.act[key][v] ELSE "none"
GroupAct(cfg, g, v) == IF HasFile(GroupFile(cfg, g)) THEN Act(cfg, "g:" \o g, v) ELSE "none"

ApplyAct(act, tag, val) ==
  CASE act = "none" -> val
    [] act = "assign" -> <<tag>>
    [] act = "assigneq" -> <<"eq">>
    [] act = "assignnone" -> NoneVal
    [] act = "append" -> IF val \in {Undef, NoneVal} THEN <<tag>> ELSE Append(val, tag)

\* What the first module executed for a host starts from.
\* With `shared` the hosts' declarations refer to one and the same object.
DeclTag(cfg, h) == IF cfg.shared THEN "d:shared" ELSE "d:" \o h
BaseVal(cfg, h, v) ==
  ApplyAct(Act(cfg, "d:" \o h, v), DeclTag(cfg, h), ApplyAct(Act(cfg, "inv", v), "inv", Undef))
BaseEnv(cfg, h) == [v \in Range(cfg.vars) |-> BaseVal(cfg, h, v)]

\* `all` is where inventory globals enter; if there is no initial value they are undefined.
StepEnv(cfg, key, env) == [v \in DOMAIN env |-> ApplyAct(Act(cfg, key, v), key, env[v])]

Ordered(cfg, a, b) == <<a, b>> \in Before(cfg) \/ <<b, a>> \in Before(cfg)

\* A group modifies (rather than defines) a variable iff it changes the value in place,
\* which requires that it is always already defined when the group is loaded.
ModifiesB(B, cfg, host, g, v) ==
  /\ GroupAct(cfg, g, v) = "append"
  /\ \A p \in MembersOf(host) : (GroupAct(cfg, p, v) = "assignnone" /\ <<p, g>> \in B) =>
        \E r \in MembersOf(host) : <<p, r>> \in B /\ <<r, g>> \in B /\ GroupAct(cfg, r, v) \notin {"none", "assignnone"}
  /\ \/ BaseVal(cfg, host.name, v) \notin {Undef, NoneVal}
     \/ \E p \in MembersOf(host) : GroupAct(cfg, p, v) \notin {"none", "assignnone"} /\ <<p, g>> \in B
Touches(cfg, g, v) == GroupAct(cfg, g, v) # "none"

Conflicts(cfg, host) ==
  LET B == Before(cfg) IN
  {<<v, a, b>> \in Range(cfg.vars) \X MembersOf(host) \X MembersOf(host) :
      /\ a # b
      /\ Touches(cfg, a, v) /\ Touches(cfg, b, v)
      /\ <<a, b>> \notin B /\ <<b, a>> \notin B
      /\ ~(ModifiesB(B, cfg, host, a, v) /\ ModifiesB(B, cfg, host, b, v))}

AnyConflict(cfg) == \E i \in 1..Len(cfg.hosts) : Conflicts(cfg, cfg.hosts[i]) # {}

\* Who is responsible for the value of a variable: the module that defined it last, followed by those that
\* modified it since.  Inventory globals enter with the group `all`, declared variables before it.
PushActor(h, a) == IF h # <<>> /\ h[Len(h)] = a THEN h ELSE Append(h, a)
HistStep(h, actor, act, val) ==
  CASE act = "none" -> h
    [] act = "assignnone" /\ val = NoneVal -> h
    [] act = "append" /\ val \notin {Undef, NoneVal} -> PushActor(h, actor)
    [] OTHER -> <<actor>>
BaseHist(cfg, h, v) == CASE Act(cfg, "d:" \o h, v) # "none" -> <<"early-explicits">>
                         [] Act(cfg, "inv", v) # "none" -> <<"all">>
                         [] OTHER -> <<>>

MustReject(cfg) == DeclErrors(cfg) # {} \/ MissingFiles(cfg) # {} \/ AnyConflict(cfg)
=============================================================================
