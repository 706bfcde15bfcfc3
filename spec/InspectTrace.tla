---------------------------- MODULE InspectTrace ----------------------------
(* Validates what `fora --inspect-inventory` prints (C25) against the meaning *)
(* of the inventory: groups in order of precedence, hosts, and for every host *)
(* the variables it really gets together with the modules responsible.        *)
EXTENDS InventoryDefs, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
Cfg == Cases[c].scn
Tr  == Cases[c].tr

Early == "early-explicits"           \* internal: carries the declared variables of a host
ShownGroups == SelectSeq(Tr.groups, LAMBDA g : g # Early)
GroupsOK ==
  /\ Range(ShownGroups) = GroupNames(Cfg) /\ ~HasDup(Tr.groups)
  /\ LET B == Before(Cfg) S == ShownGroups IN \A i, j \in 1..Len(S) : i < j => <<S[j], S[i]>> \notin B
  /\ Early \in Range(Tr.groups) => Tr.groups[1] = Early

\* What a host ends up with, following its groups in the order shown
Chain(h) == LET gs == SelectSeq(ShownGroups, LAMBDA g : g \in GroupModules(Cfg, h))
                ks == [i \in 1..Len(gs) |-> [a |-> gs[i], k |-> "g:" \o gs[i]]]
            IN IF HasFile(h.file) THEN Append(ks, [a |-> h.name, k |-> "h:" \o h.name]) ELSE ks
RECURSIVE At(_, _, _, _)
At(h, v, ch, n) ==
  IF n = 0 THEN [h |-> BaseHist(Cfg, h.name, v), e |-> BaseVal(Cfg, h.name, v)]
  ELSE LET p == At(h, v, ch, n - 1) a == Act(Cfg, ch[n].k, v)
       IN [h |-> HistStep(p.h, ch[n].a, a, p.e), e |-> ApplyAct(a, ch[n].k, p.e)]

\* how values are written: v* lists, w* dictionaries, s* strings (quoted in tables)
RECURSIVE Join(_, _, _)
Join(s, suffix, i) == IF i > Len(s) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o "'" \o s[i] \o "'" \o suffix \o Join(s, suffix, i + 1)
Kind(v) == Cfg.kinds[v]
Repr(v, e) == CASE e = NoneVal -> "None"
                [] Kind(v) = "list" -> "[" \o Join(e, "", 1) \o "]"
                [] Kind(v) = "dict" -> "{" \o Join(e, ": 1", 1) \o "}"
                [] OTHER -> "'" \o e[1] \o "'"
TypeName(v, e) == IF e = NoneVal THEN "NoneType" ELSE Kind(v)

Prec(a, host) == IF a = host THEN Len(Tr.groups) ELSE (CHOOSE i \in 1..Len(Tr.groups) : Tr.groups[i] = a) - 1

HostVerdict(i) ==
  LET h == Cfg.hosts[i] s == Tr.hosts[i] ch == Chain(Cfg.hosts[i])
      rows(v) == {k \in 1..Len(s.rows) : s.rows[k].name = v}
      V(v) == LET x == At(h, v, ch, Len(ch)) IN
        CASE x.e = Undef /\ rows(v) = {} -> "OK"
          [] x.e = Undef -> "undefined-variable-shown"
          [] Cardinality(rows(v)) # 1 -> "variable-not-shown-once"
          [] OTHER -> LET r == s.rows[CHOOSE k \in rows(v) : TRUE] IN
               CASE r.value # Repr(v, x.e) -> "wrong-value-shown"
                 [] r.type # TypeName(v, x.e) -> "wrong-type-shown"
                 [] [k \in 1..Len(r.by) |-> r.by[k].name] # x.h -> "wrong-origin-shown"
                 [] \E k \in 1..Len(r.by) : r.by[k].prec # Prec(r.by[k].name, h.name) -> "wrong-precedence-shown"
                 [] OTHER -> "OK"
      bad == {v \in Range(Cfg.vars) : V(v) # "OK"}
  IN CASE s.leak # <<>> -> "private-or-module-name-shown"
       [] bad # {} -> V(CHOOSE v \in bad : TRUE)
       [] OTHER -> "OK"

Urls(h) == IF "url" \in DOMAIN h THEN {h.url, "ssh://" \o h.url} ELSE {"None"}
GlobalOK(v) == LET e == ApplyAct(Act(Cfg, "inv", v), "inv", Undef) IN
   IF e = Undef THEN v \notin DOMAIN Tr.globals
   ELSE v \in DOMAIN Tr.globals /\ Tr.globals[v] \in {Repr(v, e), e[1]}

Verdict ==
  LET bad == {i \in 1..Len(Cfg.hosts) : HostVerdict(i) # "OK"}
      reject == MustReject(Cfg) IN
  CASE Tr.ansi /\ Cfg.nocolor # "no" -> "colored-although-disabled"
    [] reject /\ Tr.rc = 0 -> "invalid-inventory-inspected"
    [] reject /\ Tr.hosts # <<>> -> "hosts-shown-for-invalid-inventory"
    [] reject -> "OK"
    [] Tr.rc # 0 -> "inspection-failed"
    [] ~GroupsOK -> "wrong-groups-shown"
    [] [i \in 1..Len(Tr.listed) |-> Tr.listed[i].name] # HostNames(Cfg) \/ [i \in 1..Len(Tr.hosts) |-> Tr.hosts[i].name] # HostNames(Cfg) -> "wrong-hosts-shown"
    [] \E i \in 1..Len(Tr.listed) : Tr.listed[i].url \notin Urls(Cfg.hosts[i]) -> "wrong-url-shown"
    [] \E v \in Range(Cfg.vars) : ~GlobalOK(v) -> "wrong-inventory-variables-shown"
    [] Tr.gleak # <<>> -> "private-or-module-name-shown"
    [] bad # {} -> HostVerdict(CHOOSE i \in bad : \A j \in bad : i <= j)
    [] OTHER -> "OK"

Init == c \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Verdict /\ PrintT(<<"V", c, Verdict>>) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
