-------------------------------- MODULE Url --------------------------------
(* A scanner reading a host reference character by character, and the life of *)
(* one host from its declaration to the transport that is started for it.     *)
EXTENDS UrlDefs, FiniteSets
CONSTANTS MaxHost, MaxUser
Chars == {"a", "s", "."}
Words(S, n) == UNION {[1..k -> S] : k \in 1..n}
Hosts == Words(Chars, MaxHost)
Lits == {<<":", ":">>, <<":", ":", "1">>, <<"f", ":", ":", "2">>}
Users == {<<>>} \cup Words({"u", "s"}, MaxUser)
Ports == {<<>>, <<"2">>, <<"2", "2">>}
Refs == {[form |-> f, user |-> us, host |-> h, bracket |-> FALSE, port |-> p] : f \in {"bare", "short", "full"}, us \in Users, h \in Hosts, p \in Ports}
        \cup {[form |-> f, user |-> us, host |-> h, bracket |-> TRUE, port |-> p] : f \in {"short", "full"}, us \in Users, h \in Lits, p \in Ports}
VARIABLES ref, text, pos, st, acc, got, life, started
vars == <<ref, text, pos, st, acc, got, life, started>>
Empty == [user |-> <<>>, host |-> <<>>, bracket |-> FALSE, port |-> <<>>]
Init == /\ ref \in {r \in Refs : r.form = "bare" => r.port = <<>>}   \* host:port has the scheme `host`
        /\ text = Qualified(Render(ref)) /\ pos = 5 /\ st = "lead" /\ acc = <<>> /\ got = Empty
        /\ life = "declared" /\ started = {}
Ch == text[pos]
More == pos <= Len(text)
Adv == pos' = pos + 1
Keep == UNCHANGED <<ref, text, life, started>>
(* skip one optional pair of slashes *)
Lead == /\ st = "lead" /\ More /\ Keep
        /\ IF Ch = "/" THEN Adv /\ UNCHANGED <<st, acc, got>> ELSE st' = "userorhost" /\ UNCHANGED <<pos, acc, got>>
UserOrHost == /\ st = "userorhost" /\ More /\ Keep /\ Adv
              /\ CASE Ch = "@" -> got' = [got EXCEPT !.user = acc] /\ acc' = <<>> /\ st' = "hoststart"
                   [] Ch = "[" /\ acc = <<>> -> got' = [got EXCEPT !.bracket = TRUE] /\ st' = "literal" /\ UNCHANGED acc
                   [] Ch = ":" -> got' = [got EXCEPT !.host = acc] /\ acc' = <<>> /\ st' = "port"
                   [] OTHER -> acc' = Append(acc, Ch) /\ UNCHANGED <<got, st>>
HostStart == /\ st = "hoststart" /\ More /\ Keep
             /\ IF Ch = "[" THEN Adv /\ got' = [got EXCEPT !.bracket = TRUE] /\ st' = "literal" /\ UNCHANGED acc
                ELSE st' = "host" /\ UNCHANGED <<pos, acc, got>>
Host == /\ st = "host" /\ More /\ Keep /\ Adv
        /\ IF Ch = ":" THEN got' = [got EXCEPT !.host = acc] /\ acc' = <<>> /\ st' = "port"
           ELSE acc' = Append(acc, Ch) /\ UNCHANGED <<got, st>>
Literal == /\ st = "literal" /\ More /\ Keep /\ Adv
           /\ IF Ch = "]" THEN got' = [got EXCEPT !.host = acc] /\ acc' = <<>> /\ st' = "afterlit"
              ELSE acc' = Append(acc, Ch) /\ UNCHANGED <<got, st>>
AfterLit == /\ st = "afterlit" /\ More /\ Ch = ":" /\ Keep /\ Adv /\ st' = "port" /\ UNCHANGED <<acc, got>>
Port == /\ st = "port" /\ More /\ Keep /\ Adv /\ acc' = Append(acc, Ch) /\ UNCHANGED <<got, st>>
Done == /\ ~More /\ st # "done" /\ Keep /\ UNCHANGED pos /\ st' = "done" /\ acc' = <<>>
        /\ got' = CASE st \in {"userorhost", "host"} -> [got EXCEPT !.host = acc]
                    [] st = "port" -> [got EXCEPT !.port = acc]
                    [] OTHER -> got
Name == /\ st = "done" /\ life = "declared" /\ life' = "named" /\ UNCHANGED <<ref, text, pos, st, acc, got, started>>
Connect == /\ life = "named" /\ life' = "connected" /\ started' = started \cup {got} /\ UNCHANGED <<ref, text, pos, st, acc, got>>
Next == Lead \/ UserOrHost \/ HostStart \/ Host \/ Literal \/ AfterLit \/ Port \/ Done \/ Name \/ Connect
Spec == Init /\ [][Next]_vars
Meaning == [user |-> ref.user, host |-> ref.host, bracket |-> ref.bracket, port |-> ref.port]
ScannerAgrees == st = "done" => got = SshTarget(text)
RoundTrip == st = "done" => got = Meaning
NameIsHost == st = "done" => ref.host \in DefaultNames(text)
StartsOnlyTarget == started \subseteq {Meaning}
NothingBeforeNaming == life = "declared" => started = {}
=============================================================================
