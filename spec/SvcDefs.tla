------------------------------- MODULE SvcDefs -------------------------------
(* Units of a service manager: [active, enabled] as reported by it.           *)
(* A request: [state, enabled ("yes"/"no"/"~")], "~" means: not requested.    *)
EXTENDS Naturals, Sequences, FiniteSets
Running(u) == u.active \in {"active", "activating", "reloading"}
Boot(u) == u.enabled = "enabled"
Verbs == [started |-> "start", stopped |-> "stop", restarted |-> "restart", reloaded |-> "reload"]
ValidState(o) == o.state = "~" \/ o.state \in DOMAIN Verbs
\* the commands that are necessary
Acts(u, o) == (CASE o.state = "started" -> IF Running(u) THEN {} ELSE {"start"}
                 [] o.state = "stopped" -> IF Running(u) THEN {"stop"} ELSE {}
                 [] o.state = "restarted" -> {"restart"}
                 [] o.state = "reloaded" -> {"reload"}
                 [] OTHER -> {})
              \cup (IF o.enabled = "yes" /\ ~Boot(u) THEN {"enable"} ELSE IF o.enabled = "no" /\ Boot(u) THEN {"disable"} ELSE {})
\* and whether they can succeed on an existing unit
CmdOk(u, a) == CASE a \in {"start", "restart"} -> u.enabled # "masked" /\ ~u.broken
                 [] a = "enable" -> u.enabled # "masked"
                 [] a = "reload" -> u.active \in {"active", "reloading"}
                 [] OTHER -> TRUE
Do(u, a) == CASE a \in {"start", "restart", "reload"} -> [u EXCEPT !.active = "active"]
              [] a = "stop" -> [u EXCEPT !.active = "inactive"]
              [] a = "enable" -> [u EXCEPT !.enabled = "enabled"]
              [] a = "disable" -> [u EXCEPT !.enabled = "disabled"]
Satisfied(u, v, o) ==   \* u before, v after
  /\ CASE o.state \in {"started", "restarted", "reloaded"} -> Running(v) [] o.state = "stopped" -> ~Running(v) [] OTHER -> v.active = u.active
  /\ CASE o.enabled = "yes" -> Boot(v) [] o.enabled = "no" -> ~Boot(v) [] OTHER -> v.enabled = u.enabled
=============================================================================
