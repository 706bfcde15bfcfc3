------------------------------ MODULE LineDefs ------------------------------
(* A text file as a sequence of lines [t: text, s: text without surrounding   *)
(* whitespace, e: line ending, "" if missing, r: matched by the request's     *)
(* pattern], and what managing a single line does to it.                      *)
EXTENDS Naturals, Sequences, FiniteSets

Matches(o, x) == IF o.rx THEN x.r ELSE IF o.ws THEN x.s = o.s ELSE x.t = o.t
Has(o, f) == \E i \in 1..Len(f) : Matches(o, f[i])
Others(o, f) == SelectSeq(f, LAMBDA x : ~Matches(o, x))
Endings == {"0a", "0d0a"}

\* f is the old content, g the new content
Appended(o, f, g) ==
  /\ Len(g) = Len(f) + 1
  /\ \A i \in 1..Len(f) : IF i = Len(f) /\ f[i].e = "" THEN g[i].t = f[i].t /\ g[i].e \in Endings ELSE g[i] = f[i]
  /\ g[Len(g)].t = o.t /\ g[Len(g)].e \in Endings
LineResult(o, f, g) ==
  CASE o.present /\ Has(o, f) -> g = f
    [] o.present -> Appended(o, f, g)
    [] OTHER -> g = Others(o, f)
LineChanges(o, f) == Has(o, f) # o.present
=============================================================================
