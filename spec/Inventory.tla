------------------------------ MODULE Inventory ------------------------------
(* Loading an inventory as a transition system: validation, then for each     *)
(* host its group modules in any order compatible with the declared relation, *)
(* then its own module.                                                       *)
EXTENDS InventoryDefs, TLC

VARIABLES cfg, phase, hi, done, env, acts, results, executed
vars == <<cfg, phase, hi, done, env, acts, results, executed>>

Cur == cfg.hosts[hi]

InitWith(c) ==
  /\ cfg = c
  /\ phase = "validate" /\ hi = 1 /\ done = <<>> /\ env = <<>> /\ acts = {} /\ results = <<>>
  /\ executed = 0

Validate ==
  /\ phase = "validate"
  /\ IF DeclErrors(cfg) # {} \/ Len(cfg.hosts) = 0
     THEN phase' = (IF DeclErrors(cfg) # {} THEN "rejected" ELSE "loaded") /\ UNCHANGED env
     ELSE phase' = "groups" /\ env' = BaseEnv(cfg, cfg.hosts[1].name)
  /\ UNCHANGED <<cfg, hi, done, acts, results, executed>>

Pending == MembersOf(Cur) \ Range(done)

\* dynamic classification, as the module is executed
Kind(g, v) == CASE GroupAct(cfg, g, v) = "none" -> "none"
                [] GroupAct(cfg, g, v) = "append" /\ env[v] \notin {Undef, NoneVal} -> "modify"
                [] OTHER -> "define"

LoadGroup(g) ==
  /\ phase = "groups"
  /\ g \in Pending
  /\ \A p \in Pending \ {g} : <<p, g>> \notin Before(cfg)
  /\ IF GroupFile(cfg, g) = "missing"
     THEN phase' = "rejected" /\ UNCHANGED <<done, env, acts, executed>>
     ELSE /\ done' = Append(done, g)
          /\ env' = [v \in DOMAIN env |-> ApplyAct(GroupAct(cfg, g, v), "g:" \o g, env[v])]
          /\ acts' = acts \cup {<<g, v, Kind(g, v)>> : v \in {w \in DOMAIN env : Kind(g, w) # "none"}}
          /\ executed' = executed + (IF HasFile(GroupFile(cfg, g)) THEN 1 ELSE 0)
          /\ UNCHANGED phase
  /\ UNCHANGED <<cfg, hi, results>>

\* ambiguity as it presents itself in this particular order
DynConflict == \E x, y \in acts : x[1] # y[1] /\ x[2] = y[2] /\ ~Ordered(cfg, x[1], y[1]) /\ ~(x[3] = "modify" /\ y[3] = "modify")

FinishGroups ==
  /\ phase = "groups" /\ Pending = {}
  /\ phase' = (IF DynConflict \/ Cur.file = "missing" THEN "rejected" ELSE "host")
  /\ UNCHANGED <<cfg, hi, done, env, acts, results, executed>>

LoadHost ==
  /\ phase = "host"
  /\ LET e == IF HasFile(Cur.file) THEN StepEnv(cfg, "h:" \o Cur.name, env) ELSE env
     IN results' = Append(results, e)
  /\ executed' = executed + (IF HasFile(Cur.file) THEN 1 ELSE 0)
  /\ done' = <<>> /\ acts' = {}
  /\ IF hi < Len(cfg.hosts)
     THEN hi' = hi + 1 /\ phase' = "groups" /\ env' = BaseEnv(cfg, cfg.hosts[hi + 1].name)
     ELSE hi' = hi /\ phase' = "loaded" /\ UNCHANGED env
  /\ UNCHANGED cfg

Next == Validate \/ (\E g \in GroupNames(cfg) : LoadGroup(g)) \/ FinishGroups \/ LoadHost

------------------------------------------------------------------------------
\* C01
OrderRespected == \A i, j \in 1..Len(done) : i < j => <<done[j], done[i]>> \notin Before(cfg)
AllFirst == done # <<>> => done[1] = "all"
ExactlyMembers == phase = "host" => Range(done) = MembersOf(Cur) /\ Len(done) = Cardinality(MembersOf(Cur))
\* C02: tags in a result only come from that host's own chain, in precedence order
OwnTags(h) == {"inv", "None", "~", "d:" \o h.name, "h:" \o h.name} \cup {"g:" \o g : g \in MembersOf(h)}
Isolation == \A i \in 1..Len(results) : \A v \in DOMAIN results[i] : Range(results[i][v]) \subseteq OwnTags(cfg.hosts[i])
HostWins == \A i \in 1..Len(results) : \A v \in DOMAIN results[i] :
   (HasFile(cfg.hosts[i].file) /\ Act(cfg, "h:" \o cfg.hosts[i].name, v) = "assign") => results[i][v] = <<"h:" \o cfg.hosts[i].name>>
\* C25: the responsible modules are those whose tags make up the value
RECURSIVE HistAt(_, _)
HistAt(v, n) == IF n = 0 THEN [h |-> BaseHist(cfg, Cur.name, v), e |-> BaseVal(cfg, Cur.name, v)]
  ELSE LET p == HistAt(v, n - 1) a == GroupAct(cfg, done[n], v)
       IN [h |-> HistStep(p.h, done[n], a, p.e), e |-> ApplyAct(a, "g:" \o done[n], p.e)]
ActorTags(a) == IF a = "early-explicits" THEN {DeclTag(cfg, Cur.name)} ELSE {"g:" \o a} \cup (IF a = "all" THEN {"inv"} ELSE {})
Responsible == phase \in {"groups", "host"} => \A v \in DOMAIN env : LET x == HistAt(v, Len(done)) IN
   /\ x.e = env[v]
   /\ (x.h = <<>>) <=> (env[v] = Undef)
   /\ env[v] \notin {Undef, NoneVal} => /\ Range(env[v]) \subseteq UNION {ActorTags(x.h[i]) : i \in 1..Len(x.h)}
                                       /\ \A i \in 1..Len(x.h) : ActorTags(x.h[i]) \cap Range(env[v]) # {}
\* C03: the order-independent formulation equals the one observed in any particular order, ...
ConflictStatic == (phase \in {"groups"} /\ Pending = {}) => (DynConflict <=> Conflicts(cfg, Cur) # {})
\* ... and whatever is accepted is unambiguous: any two orders yield the same contributions.
RECURSIVE Lins(_, _)
Lins(S, B) == IF S = {} THEN {<<>>}
  ELSE UNION {{<<g>> \o l : l \in Lins(S \ {g}, B)} : g \in {x \in S : \A p \in S \ {x} : <<p, x>> \notin B}}
RECURSIVE RunLin(_, _)
RunLin(l, e) == IF l = <<>> THEN e
  ELSE RunLin(Tail(l), [v \in DOMAIN e |-> ApplyAct(GroupAct(cfg, Head(l), v), "g:" \o Head(l), e[v])])
Unambiguous == phase = "host" =>
   \A l \in Lins(MembersOf(Cur), Before(cfg)) : \A v \in DOMAIN env :
       Range(RunLin(l, BaseEnv(cfg, Cur.name))[v]) = Range(env[v])
\* C04
RejectedEarly == (phase = "rejected" /\ DeclErrors(cfg) # {}) => executed = 0
Accepts == phase = "loaded" => ~MustReject(cfg) /\ Len(results) = Len(cfg.hosts)
Terminates == <>(phase \in {"loaded", "rejected"})
==============================================================================
