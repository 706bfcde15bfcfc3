--------------------------- MODULE InventoryTrace ---------------------------
(* Validates recorded inventory loads.  A case carries the configuration, the *)
(* sequence of module executions with the variables each module saw, the      *)
(* outcome, and the resulting hosts.  The walk consumes one chain (the        *)
(* modules executed for one host) per step.                                   *)
EXTENDS InventoryDefs, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES c, pos, seenHosts, verdict
vars == <<c, pos, seenHosts, verdict>>

Cfg == Cases[c].scn
Tr  == Cases[c].tr
Ev  == Tr.events
NEv == Len(Ev)

\* index of the host event ending the chain that starts at p, or 0
ChainEnd(p) == LET S == {i \in p..NEv : Ev[i].k = "h"} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j

GroupsOf(p, q) == [i \in 1..(q - p + 1) |-> Ev[p + i - 1].name]

NoDup(s) == ~HasDup(s)
OrderOK(s) == LET B == Before(Cfg) IN \A i, j \in 1..Len(s) : i < j => <<s[j], s[i]>> \notin B

\* C01 on one chain of group modules gs executed for host h
Chain01(h, gs, complete) ==
  CASE ~(Range(gs) \subseteq GroupModules(Cfg, h)) -> "foreign-group-executed"
    [] ~NoDup(gs) -> "group-executed-twice"
    [] ~OrderOK(gs) -> "order-violated"
    [] complete /\ Range(gs) # GroupModules(Cfg, h) -> "group-not-executed"
    [] OTHER -> "OK"

\* C02 on one chain: every module sees exactly what the chain produced so far
RECURSIVE EnvAt(_, _, _)
EnvAt(h, p, q) == \* environment after events p..q
  IF q < p THEN BaseEnv(Cfg, h.name)
  ELSE StepEnv(Cfg, Ev[q].k \o ":" \o Ev[q].name, EnvAt(h, p, q - 1))

Sees(h, p, q) == \A i \in p..q : LET e == EnvAt(h, p, i - 1) IN \A v \in DOMAIN e : Ev[i].seen[v] = e[v]
NoLeak(p, q) == \A i \in p..q : Len(Ev[i].leak) = 0
FinalVars(name) == LET S == {i \in 1..Len(Tr.hosts) : Tr.hosts[i].name = name}
                   IN IF S = {} THEN <<>> ELSE Tr.hosts[CHOOSE i \in S : TRUE].vars
FinalOK(h, p, q) == Tr.outcome = "ok" =>
   LET e == EnvAt(h, p, q) f == FinalVars(h.name) IN f # <<>> /\ \A v \in DOMAIN e : f[v] = e[v]
Chain02(h, p, q, complete) ==
  CASE ~NoLeak(p, q) -> "private-or-module-name-inherited"
    [] ~Sees(h, p, q) -> "module-saw-wrong-variables"
    [] complete /\ ~FinalOK(h, p, q) -> "host-has-wrong-variables"
    [] OTHER -> "OK"

Verdict03 ==
  CASE DeclErrors(Cfg) # {} \/ MissingFiles(Cfg) # {} -> "OK"
    [] AnyConflict(Cfg) /\ Tr.outcome # "rejected" -> "ambiguous-definition-accepted(" \o Tr.outcome \o ")"
    [] ~AnyConflict(Cfg) /\ Tr.outcome # "ok" -> "unambiguous-inventory-rejected(" \o Tr.outcome \o ")"
    [] OTHER -> "OK"

LoadedNames == [i \in 1..Len(Tr.hosts) |-> Tr.hosts[i].name]
Verdict04 ==
  CASE DeclErrors(Cfg) # {} /\ Tr.outcome = "ok" -> "invalid-declaration-accepted"
    [] DeclErrors(Cfg) # {} /\ NEv > 0 -> "modules-executed-before-declaration-error"
    [] DeclErrors(Cfg) # {} -> "OK"
    [] MissingFiles(Cfg) # {} /\ Tr.outcome = "ok" -> "missing-explicit-file-accepted"
    [] MustReject(Cfg) -> "OK"
    [] Tr.outcome # "ok" -> "valid-inventory-rejected(" \o Tr.outcome \o ")"
    [] LoadedNames # HostNames(Cfg) -> "wrong-hosts-loaded"
    [] \E i \in 1..Len(Tr.hosts) : Range(Tr.hosts[i].groups) # MembersOf(Cfg.hosts[i]) -> "wrong-groups-on-host"
    [] OTHER -> "OK"

ChainVerdict(h, p, q, complete) ==
  IF Prop = "C01" THEN Chain01(h, GroupsOf(p, q), complete)
  ELSE IF complete THEN Chain02(h, p, q + (IF ChainEnd(p) = q + 1 THEN 1 ELSE 0), complete) ELSE Chain02(h, p, q, complete)

\* hosts that may own a chain without a host module event
Candidates == {Cfg.hosts[i] : i \in {j \in 1..Len(Cfg.hosts) : Cfg.hosts[j].name \notin seenHosts}}

EndVerdict ==
  CASE Prop = "C03" -> Verdict03
    [] Prop = "C04" -> Verdict04
    [] Tr.outcome # "ok" /\ ~MustReject(Cfg) -> "loading-failed(" \o Tr.outcome \o ")"
    [] Tr.outcome = "ok" /\ \E i \in 1..Len(Cfg.hosts) : HasFile(Cfg.hosts[i].file) /\ Cfg.hosts[i].name \notin seenHosts -> "host-module-not-executed"
    [] OTHER -> "OK"

Init == c \in 1..Len(Cases) /\ pos = 1 /\ seenHosts = {} /\ verdict = "run"

Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, pos, seenHosts>>

Next ==
  /\ verdict = "run"
  /\ IF Prop \in {"C03", "C04"} \/ DeclErrors(Cfg) # {} \/ pos > NEv THEN Finish(EndVerdict)
     ELSE LET e == ChainEnd(pos) IN
       IF e # 0
       THEN IF ~(Ev[e].name \in Range(HostNames(Cfg))) THEN Finish("unknown-host-module")
            ELSE IF Ev[e].name \in seenHosts THEN Finish("host-module-executed-twice")
            ELSE LET v == ChainVerdict(HostByName(Cfg, Ev[e].name), pos, e - 1, TRUE) IN
                 IF v # "OK" THEN Finish(v)
                 ELSE pos' = e + 1 /\ seenHosts' = seenHosts \cup {Ev[e].name} /\ UNCHANGED <<c, verdict>>
       ELSE \* trailing chain: aborted load, or a host without a module file
            LET complete == Tr.outcome = "ok"
                vs == {ChainVerdict(h, pos, NEv, complete) : h \in Candidates} IN
            IF "OK" \in vs THEN pos' = NEv + 1 /\ UNCHANGED <<c, seenHosts, verdict>>
            ELSE Finish(IF vs = {} THEN "unexpected-module-executions" ELSE CHOOSE v \in vs : TRUE)

Spec == Init /\ [][Next]_vars
=============================================================================
