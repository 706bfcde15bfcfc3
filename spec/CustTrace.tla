------------------------------ MODULE CustTrace ----------------------------
(* Validates what was loaded and how hosts were reached when an inventory     *)
(* replaces default behaviour (C29), against CustDefs.                        *)
EXTENDS CustDefs, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
S == Cases[c].scn
Tr == Cases[c].tr
N == Len(S.hosts)
LoadedOk == Len(Tr.mods) = Len(Loaded(S)) /\ \A i \in 1..Len(Tr.mods) : LET m == Loaded(S)[i] IN Tr.mods[i] = <<m.f, m.k, m.n>>
Host(i) == Tr.hosts[i]
NameOk(i) == Host(i).name = Name(S, S.hosts[i]) /\ Host(i).own = Host(i).name
UrlOk(i) == Host(i).url = LastUrl(S, S.hosts[i])
Reached(i) == LET k == Contact(S, S.hosts[i]) e == Host(i) IN
  CASE k.kind = "error" -> IF e.opened # <<>> THEN "connected-although-unreachable" ELSE IF e.res # "FatalError" THEN "unreachable-not-reported" ELSE "OK"
    [] e.res # "ok" -> "cannot-connect"
    [] Len(e.opened) # 1 -> "not-connected-exactly-once"
    [] e.opened[1].kind # k.kind -> "wrong-connector"
    [] e.opened[1].url # k.url -> "wrong-url"
    [] e.opened[1].host # Host(i).name -> "wrong-host"
    [] \E f \in Fields : e.settings[f] # Settings(S)[f] -> "wrong-base-settings"
    [] e.run.cwd # Settings(S).cwd \/ e.run.umask # Settings(S).umask -> "settings-not-used"
    [] \E f \in {"as_user", "owner"} : e.settings[f] # "u-" \o k.kind -> "wrong-identity"
    [] \E f \in {"as_group", "group"} : e.settings[f] # "g-" \o k.kind -> "wrong-identity"
    [] e.run.user # "u-" \o k.kind \/ e.run.group # "g-" \o k.kind -> "wrong-identity"
    [] OTHER -> "OK"
Verdict ==
  CASE Tr.outcome # "ok" -> "no-result"
    [] (Tr.load = "ok") # ~Bad(S) -> IF Bad(S) THEN "invalid-inventory-accepted" ELSE "valid-inventory-rejected"
    [] Bad(S) /\ Tr.load # "FatalError" -> "rejection-not-reported"
    [] Bad(S) -> "OK"
    [] ~LoadedOk -> "wrong-modules"
    [] Len(Tr.hosts) # N -> "hosts-missing"
    [] \E i \in 1..N : ~NameOk(i) -> "wrong-name"
    [] \E i \in 1..N : ~UrlOk(i) -> "wrong-url"
    [] \E i \in 1..N : Host(i).leaked # <<>> -> "function-became-a-variable"
    [] \E i \in 1..N : Host(i).extra # "own" -> "variable-missing"
    [] Range(Tr.groups) # Range(S.present) -> "wrong-available-groups"
    [] \E i \in 1..N : Reached(i) # "OK" -> Reached(CHOOSE i \in 1..N : Reached(i) # "OK")
    [] Tr.touched -> "given-settings-modified"
    [] OTHER -> "OK"
Init == c \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Verdict /\ PrintT(<<"V", c, verdict'>>) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
