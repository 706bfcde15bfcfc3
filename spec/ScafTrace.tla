------------------------------ MODULE ScafTrace ------------------------------
(* Validates what --init creates, and that it can be used (C27).              *)
EXTENDS ScafDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
S == Cases[c].scn
Tr == Cases[c].tr
Range(s) == {s[i] : i \in 1..Len(s)}
\* directory listings: <<path, what>> with what "dir", "link", or a token of the content
Before == Range(Tr.before)
After == Range(Tr.after)
PathsOf(l) == {e[1] : e \in l}
What(l, p) == LET e == CHOOSE e \in l : e[1] = p IN e[2]
IsDir(l, p) == <<p, "dir">> \in l
Fresh == Range(Tr.fresh)
Empty == Tr.before = <<>>
Allowed == S.layout \in Layouts /\ (Empty \/ Consents(S.answer))
\* something of the user is where a directory of the layout has to be, or a directory where a file has to be
Blocked == (\E d \in Dirs(S.layout) : d \in PathsOf(Before) /\ ~IsDir(Before, d)) \/ (\E f \in Files(S.layout) : IsDir(Before, f))
Touchable == Files(S.layout) \cup Dirs(S.layout)
InitVerdict ==
  CASE ~Allowed /\ After # Before -> "directory-changed-without-consent"
    [] ~Allowed /\ Tr.rc = 0 -> "refusal-reported-as-success"
    [] {e \in After : e[1] \notin Touchable} # {e \in Before : e[1] \notin Touchable} -> "other-files-changed"
    [] \E e \in Before : e[2] = "dir" /\ e \notin After -> "directory-lost"
    [] ~Allowed -> "OK"
    [] Blocked /\ Tr.rc = 0 -> "incomplete-layout-reported-as-success"
    [] Blocked -> "OK"
    [] Tr.rc # 0 -> "layout-not-created"
    [] \E d \in Dirs(S.layout) : ~IsDir(After, d) -> "directory-missing"
    [] \E f \in Files(S.layout) : f \notin PathsOf(After) \/ What(After, f) # What(Fresh, f) -> "file-missing-or-different"
    [] OTHER -> "OK"
\* the layout is complete: its inventory and deploy can be used
HostVerdict(h) ==
  CASE ~S.dry /\ \E x \in Deployed(S.layout) : x \notin Range(h.has) -> "deploy-incomplete"
    [] S.dry /\ h.uploads # 0 -> "dry-run-modified-host"
    [] ~S.dry /\ Service(S.layout) /\ ~(h.installed = <<"nginx">> /\ h.unit = <<"active", "enabled">>) -> "service-not-deployed"
    [] S.dry /\ (h.installed # <<>> \/ h.unit # <<"inactive", "disabled">>) -> "dry-run-modified-host"
    [] OTHER -> "OK"
RunVerdict ==
  LET R == Tr.run H == [i \in 1..Len(R.hosts) |-> R.hosts[i].host] bad == {i \in 1..Len(R.hosts) : HostVerdict(R.hosts[i]) # "OK"} IN
  CASE R.rc # 0 -> "example-deploy-fails"
    [] H # Hosts(S.layout, S.inv) -> "wrong-hosts-or-variables"
    [] bad # {} -> HostVerdict(R.hosts[CHOOSE i \in bad : TRUE])
    [] OTHER -> "OK"
Verdict == IF Tr.outcome # "ok" THEN "driver-" \o Tr.outcome ELSE IF InitVerdict # "OK" THEN InitVerdict ELSE IF Allowed /\ Tr.rc = 0 THEN RunVerdict ELSE "OK"
Init == c \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Verdict /\ PrintT(<<"V", c, Verdict>>) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
