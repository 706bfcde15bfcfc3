------------------------------- MODULE Tunnel -------------------------------
(* The request/response protocol between a client and the remote dispatcher   *)
(* over two byte streams that may be cut at any position, together with the   *)
(* life cycle of the connection.  A packet is a sequence of chunks; a chunk   *)
(* is <<request id, index, total>>.                                           *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS MaxReq,      \* number of requests issued
          ReqLen,      \* set of request lengths in chunks
          RespLen      \* set of response lengths in chunks

Kinds == {"value", "error", "unsendable"}

VARIABLES phase,       \* closed | open | left
          alive,       \* dispatcher process
          nreq,        \* requests issued so far
          pending,     \* id of the request waiting for its response, 0 if none
          kindOf,      \* kind of every issued request
          c2s, s2c,    \* chunks in flight
          c2sEnd, s2cEnd, \* the stream ends after what is in flight
          sentLen,     \* number of chunks of each request
          delivered,   \* chunks the server has received per request
          executed,    \* sequence of requests the server executed
          results      \* function id -> <<kind of result, id it belongs to>>
vars == <<phase, alive, nreq, pending, kindOf, c2s, s2c, c2sEnd, s2cEnd, sentLen, delivered, executed, results>>

Ids == 1..MaxReq
Chunks(id, n) == [i \in 1..n |-> <<id, i, n>>]

Init ==
  /\ phase = "closed" /\ alive = FALSE /\ nreq = 0 /\ pending = 0
  /\ kindOf = [i \in {} |-> ""] /\ c2s = <<>> /\ s2c = <<>> /\ c2sEnd = FALSE /\ s2cEnd = FALSE
  /\ sentLen = [i \in {} |-> 0] /\ delivered = [i \in {} |-> 0] /\ executed = <<>> /\ results = [i \in {} |-> <<>>]

Open ==
  /\ phase = "closed"
  /\ \/ phase' = "open" /\ alive' = TRUE           \* success
     \/ phase' = "left" /\ alive' = FALSE          \* opening failed: everything is released
  /\ UNCHANGED <<nreq, pending, kindOf, c2s, s2c, c2sEnd, s2cEnd, sentLen, delivered, executed, results>>

\* issue a request; one that cannot be sent, or that finds the stream closed, fails immediately
Request(k, n) ==
  /\ phase \in {"open", "left"} /\ pending = 0 /\ nreq < MaxReq
  /\ nreq' = nreq + 1
  /\ kindOf' = [i \in DOMAIN kindOf \cup {nreq'} |-> IF i = nreq' THEN k ELSE kindOf[i]]
  /\ IF k = "unsendable" \/ phase = "left"
     THEN /\ results' = [i \in DOMAIN results \cup {nreq'} |-> IF i = nreq' THEN <<"error", nreq'>> ELSE results[i]]
          /\ UNCHANGED <<pending, c2s, sentLen, delivered>>
     ELSE /\ pending' = nreq'
          /\ c2s' = (IF c2sEnd THEN c2s ELSE c2s \o Chunks(nreq', n))
          /\ sentLen' = [i \in DOMAIN sentLen \cup {nreq'} |-> IF i = nreq' THEN n ELSE sentLen[i]]
          /\ delivered' = [i \in DOMAIN delivered \cup {nreq'} |-> IF i = nreq' THEN 0 ELSE delivered[i]]
          /\ UNCHANGED results
  /\ UNCHANGED <<phase, alive, s2c, c2sEnd, s2cEnd, executed>>

CutC2S(k) == /\ phase = "open" /\ ~c2sEnd /\ k \in 0..Len(c2s)
             /\ c2s' = SubSeq(c2s, 1, k) /\ c2sEnd' = TRUE
             /\ UNCHANGED <<phase, alive, nreq, pending, kindOf, s2c, s2cEnd, sentLen, delivered, executed, results>>
CutS2C(k) == /\ phase = "open" /\ ~s2cEnd /\ k \in 0..Len(s2c)
             /\ s2c' = SubSeq(s2c, 1, k) /\ s2cEnd' = TRUE
             /\ UNCHANGED <<phase, alive, nreq, pending, kindOf, c2s, c2sEnd, sentLen, delivered, executed, results>>
\* the dispatcher dies: nothing more is read or written
Die == /\ alive /\ phase = "open"
       /\ alive' = FALSE /\ c2sEnd' = TRUE /\ s2cEnd' = TRUE /\ c2s' = <<>>
       /\ UNCHANGED <<phase, nreq, pending, kindOf, s2c, sentLen, delivered, executed, results>>

\* a complete packet is at the head of a stream
HeadComplete(s) == s # <<>> /\ s[1][2] = 1 /\ Len(s) >= s[1][3]
Rest(s) == SubSeq(s, s[1][3] + 1, Len(s))

ServerHandle(n) ==
  /\ alive /\ HeadComplete(c2s)
  /\ LET id == c2s[1][1] IN
     /\ c2s' = Rest(c2s)
     /\ delivered' = [delivered EXCEPT ![id] = c2s[1][3]]
     /\ executed' = Append(executed, id)
     /\ s2c' = (IF s2cEnd THEN s2c ELSE s2c \o Chunks(id, n))
  /\ UNCHANGED <<phase, alive, nreq, pending, kindOf, c2sEnd, s2cEnd, sentLen, results>>
ServerEof ==
  /\ alive /\ c2sEnd /\ ~HeadComplete(c2s)
  /\ alive' = FALSE /\ s2cEnd' = TRUE
  /\ UNCHANGED <<phase, nreq, pending, kindOf, c2s, s2c, c2sEnd, sentLen, delivered, executed, results>>

ClientReceive ==
  /\ pending # 0 /\ HeadComplete(s2c)
  /\ LET id == s2c[1][1] IN
     /\ results' = [i \in DOMAIN results \cup {pending} |-> IF i = pending THEN <<kindOf[id], id>> ELSE results[i]]
     /\ s2c' = Rest(s2c)
  /\ pending' = 0
  /\ UNCHANGED <<phase, alive, nreq, kindOf, c2s, c2sEnd, s2cEnd, sentLen, delivered, executed>>
ClientEof ==
  /\ pending # 0 /\ s2cEnd /\ ~HeadComplete(s2c)
  /\ results' = [i \in DOMAIN results \cup {pending} |-> IF i = pending THEN <<"error", pending>> ELSE results[i]]
  /\ pending' = 0
  /\ UNCHANGED <<phase, alive, nreq, kindOf, c2s, s2c, c2sEnd, s2cEnd, sentLen, delivered, executed>>

Leave ==
  /\ phase = "open" /\ pending = 0
  /\ phase' = "left" /\ alive' = FALSE
  /\ UNCHANGED <<nreq, pending, kindOf, c2s, s2c, c2sEnd, s2cEnd, sentLen, delivered, executed, results>>

Next == \/ Open \/ Leave \/ Die
        \/ \E k \in Kinds, n \in ReqLen : Request(k, n)
        \/ \E k \in 0..Len(c2s) : CutC2S(k)
        \/ \E k \in 0..Len(s2c) : CutS2C(k)
        \/ \E n \in RespLen : ServerHandle(n)
        \/ ServerEof \/ ClientReceive \/ ClientEof
Fair == WF_vars(ServerEof) /\ WF_vars(ClientReceive) /\ WF_vars(ClientEof) /\ WF_vars(\E n \in RespLen : ServerHandle(n))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
\* C06: a response always belongs to its request
OwnResponse == \A i \in DOMAIN results : results[i][2] = i
ResultKind == \A i \in DOMAIN results : results[i][1] = "value" => kindOf[i] = "value"
AtMostOnce == \A i, j \in 1..Len(executed) : i # j => executed[i] # executed[j]
\* C07: values require a completely delivered, executed request; partial requests are never executed
NoInvention == \A i \in DOMAIN results : results[i][1] = "value" => i \in {executed[j] : j \in 1..Len(executed)}
NoPartialExecution == \A j \in 1..Len(executed) : delivered[executed[j]] = sentLen[executed[j]]
NoHang == (pending # 0) ~> (pending = 0)
\* C09
Released == phase = "left" => ~alive
=============================================================================
