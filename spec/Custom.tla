------------------------------ MODULE Custom --------------------------------
(* Loading an inventory with replaced functions as a state machine: every     *)
(* declaration is qualified, then named, then every host is loaded module by  *)
(* module. Checked against the definitions of CustDefs.                       *)
EXTENDS CustDefs
U(s, h) == [s |-> s, h |-> h]
Hook(on, t) == [on |-> on, t |-> t]
Off == Hook(FALSE, <<>>)
P(k, v) == [k |-> k, v |-> v]
Urls == {NoUrl, U("", "a"), U("vt", "a"), U("zz", "b")}
HostDecls == {[url |-> u, name |-> n, file |-> f, groups |-> g] : u \in Urls, n \in {"~", "a", "n"}, f \in {"~", "x.py"}, g \in {<<>>, <<"g">>}}
Qualifiers == {Off, Hook(TRUE, <<>>), Hook(TRUE, <<P(U("", "a"), U("vt", "b")), P(U("vt", "a"), U("!", "!"))>>)}
Extractors == {Off, Hook(TRUE, <<P(U("vt", "b"), "!"), P(U("ssh", "a"), "n"), P(U("zz", "b"), "a")>>)}
GFiles == {Off, Hook(TRUE, <<P("g", "x.py"), P("all", "sub/x.py")>>)}
HFiles == {Off, Hook(TRUE, <<P("a", "x.py")>>)}
VARIABLES S, i, pc, names, urls, loaded, g
vars == <<S, i, pc, names, urls, loaded, g>>
Files == {<<"x.py", "sub/x.py">>, <<"sub/x.py", "gs/g.py", "hs/a.py">>}
Init ==
  /\ \E h1, h2 \in HostDecls, q \in Qualifiers, e \in Extractors, gf \in GFiles, hf \in HFiles, b \in {"", "sub"}, fs \in Files :
       /\ h1.file = "~" \/ h2.file = "~"
       /\ ToString(h1) # ToString(h2)
       /\ S = [hosts |-> <<h1, h2>>, groups |-> <<[name |-> "all", file |-> "~"], [name |-> "g", file |-> "~"]>>, qualify |-> q, extract |-> e, gfile |-> gf, hfile |-> hf,
               base |-> b, gdir |-> "gs", hdir |-> "hs", files |-> fs, schemes |-> <<"ssh", "vt">>, sets |-> <<P("x.py", [url |-> U("vt", "z"), connector |-> "~"])>>, settings |-> [on |-> FALSE]]
  /\ i = 1 /\ pc = "qualify" /\ names = <<>> /\ urls = <<>> /\ loaded = <<>> /\ g = 1
H == S.hosts[i]
Reject == pc' = "rejected" /\ UNCHANGED <<S, i, names, urls, loaded, g>>
DoQualify == pc = "qualify" /\ LET u == Qualify(S, H.url) IN
  IF Err(u) THEN Reject ELSE urls' = Append(urls, u) /\ pc' = "name" /\ UNCHANGED <<S, i, names, loaded, g>>
DoName == pc = "name" /\ LET n == Name(S, H) IN
  IF n = "!" \/ n \in Range(names) THEN Reject
  ELSE /\ names' = Append(names, n)
       /\ IF i < Len(S.hosts) THEN i' = i + 1 /\ pc' = "qualify" ELSE i' = 1 /\ pc' = "load"
       /\ UNCHANGED <<S, urls, loaded, g>>
Mod(f, k, n) == IF Exists(S, f) THEN <<[f |-> f, k |-> k, n |-> n]>> ELSE <<>>
DoLoad == pc = "load" /\ LET gs == GroupsOf(S, H) IN
  IF g <= Len(gs)
  THEN IF gs[g].file # "~" /\ ~Exists(S, GroupFile(S, gs[g])) THEN Reject
       ELSE loaded' = loaded \o Mod(GroupFile(S, gs[g]), "g", gs[g].name) /\ g' = g + 1 /\ UNCHANGED <<S, i, pc, names, urls>>
  ELSE IF H.file # "~" /\ ~Exists(S, HostFile(S, H)) THEN Reject
       ELSE /\ loaded' = loaded \o Mod(HostFile(S, H), "h", names[i]) /\ g' = 1
            /\ IF i < Len(S.hosts) THEN i' = i + 1 /\ pc' = "load" ELSE i' = i /\ pc' = "ok"
            /\ UNCHANGED <<S, names, urls>>
Next == DoQualify \/ DoName \/ DoLoad
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RejectedExactlyIfBad == (pc = "ok" => ~Bad(S)) /\ (pc = "rejected" => Bad(S))
LoadsExactly == pc = "ok" => loaded = Loaded(S)
NamesDistinct == \A a, b \in 1..Len(names) : a # b => names[a] # names[b]
\* without replaced functions, nothing outside of the usual places is loaded
DefaultPlaces == ~S.gfile.on /\ ~S.hfile.on => \A k \in 1..Len(loaded) : loaded[k].f \in {At(S, "gs/g.py"), At(S, "gs/all.py"), At(S, "hs/" \o loaded[k].n \o ".py"), At(S, "x.py")}
\* a host that no module of which says something else is reached by its own url
OwnUrl == pc = "ok" => \A k \in 1..Len(S.hosts) : (\A m \in Range(Mods(S, S.hosts[k])) : m.f # "x.py") => Contact(S, S.hosts[k]).url = urls[k]
Ends == <>(pc \in {"ok", "rejected"})
=============================================================================
