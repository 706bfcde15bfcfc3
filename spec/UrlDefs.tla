------------------------------ MODULE UrlDefs ------------------------------
(* Host references: how the text of an inventory entry denotes a connector,   *)
(* a user, a host and a port (C24). Texts are sequences of characters.        *)
EXTENDS Naturals, Sequences
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* Position of the first occurrence of ch at or after k, 0 if there is none. *)
Find(s, ch, k) == LET P == {i \in k..Len(s) : s[i] = ch} IN IF P = {} THEN 0 ELSE MinOf(P)
From(s, k) == SubSeq(s, k, Len(s))
UpTo(s, k) == SubSeq(s, 1, k)
StartsWith(s, p) == Len(s) >= Len(p) /\ UpTo(s, Len(p)) = p

Ssh == <<"s", "s", "h">>
Loc == <<"l", "o", "c", "a", "l">>
Localhost == <<"l", "o", "c", "a", "l", "h", "o", "s", "t">>

(* The scheme of a text: everything up to the first colon.                     *)
HasScheme(u) == Find(u, ":", 1) # 0
SchemeOf(u) == IF HasScheme(u) THEN UpTo(u, Find(u, ":", 1) - 1) ELSE <<>>
(* Entries of an inventory without a scheme mean ssh.                          *)
Qualified(u) == IF HasScheme(u) THEN u ELSE Ssh \o <<":", "/", "/">> \o u

(* [user@]host[:port], the host possibly being a bracketed IPv6 literal.       *)
Authority(s) ==
  LET a == Find(s, "@", 1)
      user == IF a = 0 THEN <<>> ELSE UpTo(s, a - 1)
      rest == From(s, a + 1)
  IN IF rest # <<>> /\ rest[1] = "["
     THEN LET b == Find(rest, "]", 2)
              after == From(rest, b + 1)
          IN [user |-> user, host |-> SubSeq(rest, 2, b - 1), bracket |-> TRUE,
              port |-> IF after # <<>> /\ after[1] = ":" THEN From(after, 2) ELSE <<>>]
     ELSE LET p == Find(rest, ":", 1)
          IN [user |-> user, host |-> IF p = 0 THEN rest ELSE UpTo(rest, p - 1), bracket |-> FALSE,
              port |-> IF p = 0 THEN <<>> ELSE From(rest, p + 1)]

SshTarget(u) ==
  LET r == From(u, 5) IN Authority(IF StartsWith(r, <<"/", "/">>) THEN From(r, 3) ELSE r)

(* The default names of a host given by a qualified url: exactly the host part *)
(* (of a literal, the brackets may or may not be counted).                     *)
DefaultNames(u) ==
  CASE SchemeOf(u) = Ssh -> LET t == SshTarget(u) IN {t.host} \cup (IF t.bracket THEN {<<"[">> \o t.host \o <<"]">>} ELSE {})
    [] SchemeOf(u) = Loc -> {IF From(u, 7) = <<>> THEN Localhost ELSE From(u, 7)}
    [] OTHER -> {From(u, Find(u, ":", 1) + 1)}

(* Writing a reference down. `form` selects between equivalent spellings.      *)
Render(r) ==
  LET host == IF r.bracket THEN <<"[">> \o r.host \o <<"]">> ELSE r.host
      auth == (IF r.user = <<>> THEN <<>> ELSE r.user \o <<"@">>) \o host \o (IF r.port = <<>> THEN <<>> ELSE <<":">> \o r.port)
  IN CASE r.form = "bare" -> auth
       [] r.form = "short" -> Ssh \o <<":">> \o auth
       [] r.form = "full" -> Ssh \o <<":", "/", "/">> \o auth
=============================================================================
