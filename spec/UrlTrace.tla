------------------------------ MODULE UrlTrace -----------------------------
(* Validates how declared hosts were named and contacted (C24).               *)
EXTENDS UrlDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, verdict
vars == <<c, l, verdict>>
Hs == Cases[c].scn.hosts
Tr == Cases[c].tr
Ev == Tr.events
IsStr(x) == ToString(x) = "\"~\""       \* absent values are written as "~"
Given(x) == ~IsStr(x)
Known == {Ssh, Loc, <<"v", "t">>}

DeclOk(h) == Given(h.nc) \/ (Given(h.uc) /\ SchemeOf(Qualified(h.uc)) \in Known)
Names(h) == IF Given(h.nc) THEN {h.nc} ELSE DefaultNames(Qualified(h.uc))

(* The url in effect (the host module may replace it) and the connector.       *)
HasUrl(h) == Given(h.mc.url) \/ Given(h.uc)
UrlOf(h) == IF Given(h.mc.url) THEN h.mc.url ELSE Qualified(h.uc)
Kind(h) == CASE h.mc.connector # "~" -> h.mc.connector
             [] ~HasUrl(h) -> "error"
             [] ~HasScheme(UrlOf(h)) -> "error"
             [] SchemeOf(UrlOf(h)) = Ssh -> "ssh"
             [] SchemeOf(UrlOf(h)) = Loc -> "local"
             [] SchemeOf(UrlOf(h)) = <<"v", "t">> -> "vt"
             [] OTHER -> "error"
FromUrl(h) == HasUrl(h) /\ SchemeOf(UrlOf(h)) = Ssh
Contactable(h) == CASE Kind(h) = "error" -> FALSE
                    [] Kind(h) = "ssh" -> FromUrl(h) \/ (Given(h.mc.ssh_host) /\ Given(h.mc.ssh_port))
                    [] OTHER -> TRUE
Target(h) == IF FromUrl(h) THEN LET t == SshTarget(UrlOf(h)) IN [user |-> t.user, host |-> t.host, port |-> t.port]
             ELSE [user |-> <<>>, host |-> h.mc.ssh_host, port |-> h.mc.ssh_port]

Judge(h, e) ==
  CASE e.name \notin Names(h) -> "wrong-host-name"
    [] ~e.same -> "wrong-host-name"
    [] ~Contactable(h) /\ (e.ssh # <<>>) -> "started-something-for-an-invalid-url"
    [] ~Contactable(h) /\ e.res = "ok" -> "connected-with-an-invalid-url"
    [] ~Contactable(h) -> "OK"
    [] Kind(h) # "ssh" /\ e.ssh # <<>> -> "wrong-connector"
    [] Kind(h) = "ssh" /\ Len(e.ssh) # 1 -> "ssh-not-started-exactly-once"
    [] (Kind(h) = "vt") # (Len(e.vt) = 1) \/ Len(e.vt) > 1 -> "wrong-connector"
    [] Kind(h) = "vt" /\ HasUrl(h) /\ e.vt # <<UrlOf(h)>> -> "url-not-passed-on-unchanged"
    [] Kind(h) = "ssh" /\ [user |-> e.ssh[1].user, host |-> e.ssh[1].host, port |-> e.ssh[1].port] # Target(h) -> "wrong-ssh-target"
    [] Kind(h) = "ssh" /\ e.ssh[1].opts # h.mc.opts -> "ssh-options-not-passed-on"
    [] e.res # "ok" \/ e.out # "a b" -> "cannot-connect"
    [] OTHER -> "OK"

Init == c \in 1..Len(Cases) /\ l = 1 /\ verdict = "run"
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l>>
AllOk == \A i \in 1..Len(Hs) : DeclOk(Hs[i])
Next == /\ verdict = "run"
        /\ IF Tr.outcome # "ok" THEN Finish("no-result")
           ELSE IF l = 1 /\ Tr.lssh # <<>> THEN Finish("started-something-while-loading")
           ELSE IF l = 1 /\ (Tr.load = "ok") # AllOk THEN Finish(IF AllOk THEN "valid-hosts-rejected" ELSE "invalid-url-accepted")
           ELSE IF Tr.load = "ok" /\ Len(Ev) # Len(Hs) THEN Finish("hosts-missing")
           ELSE IF l > Len(Ev) THEN Finish("OK")
           ELSE LET v == Judge(Hs[l], Ev[l]) IN IF v # "OK" THEN Finish(v) ELSE l' = l + 1 /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Next]_vars
=============================================================================
