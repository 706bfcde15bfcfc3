------------------------------ MODULE LogDefs ------------------------------
(* What reports mean: a printed difference as a set of edits that leads from  *)
(* the old content to the new one, and which state entries are to be shown.   *)
(* Contents are sequences of tokens; "NL" separates lines.  A missing file is *)
(* <<"ABSENT">>.  A hunk is [a, al, b, bl, lines], lines: <<sign, text>>.     *)
EXTENDS Integers, Sequences, FiniteSets

\* How the bytes a token stands for are written on a terminal. Characters which are not printable
\* must be escaped; those beyond ASCII are recorded as <HEX>.
Text(t) == CASE t = "SP" -> " " [] t = "TAB" -> "\\t" [] t = "CR" -> "\\r" [] t = "NUL" -> "\\0"
             [] t = "ESC" -> "\\x1b" [] t = "BEL" -> "\\x07" [] t = "DEL" -> "\\x7f" [] t = "XFF" -> "\\xff" [] t = "NEL" -> "\\x85"
             [] t = "EACUTE" -> "<E9>" [] t = "CJK" -> "<6F22>" [] t = "SMILE" -> "<1F438>"
             [] t = "LSEP" -> "\\u2028" [] t = "RLO" -> "\\u202e" [] t = "TAGA" -> "\\U000e0041" [] t = "BACKSL" -> "\\"
             [] OTHER -> t
Absent == <<"ABSENT">>
RECURSIVE SplitAt(_, _, _, _)
SplitAt(s, i, cur, out) == IF i > Len(s) THEN Append(out, cur)
  ELSE IF s[i] = "NL" THEN SplitAt(s, i + 1, "", Append(out, cur)) ELSE SplitAt(s, i + 1, cur \o Text(s[i]), out)
\* the lines of a content, as they are printed; an absent file has none
Lines(s) == IF s = Absent THEN <<>> ELSE SplitAt(s, 1, "", <<>>)

Bad == <<"BAD">>
Seg(s, i, j) == IF i > j THEN <<>> ELSE SubSeq(s, i, j)
CountSign(ls, S) == Cardinality({i \in 1..Len(ls) : ls[i][1] \in S})
TextsOf(ls, S) == LET sel == SelectSeq(ls, LAMBDA x : x[1] \in S) IN [i \in 1..Len(sel) |-> sel[i][2]]
\* applies the hunks from position pos (first old line not yet copied) to `out`
RECURSIVE Apply(_, _, _, _, _)
Apply(old, hs, k, pos, out) ==
  IF k > Len(hs) THEN out \o Seg(old, pos, Len(old))
  ELSE LET h == hs[k]
           s == IF h.al = 0 THEN h.a + 1 ELSE h.a
           copied == out \o Seg(old, pos, s - 1)
           t == IF h.bl = 0 THEN h.b + 1 ELSE h.b
       IN IF \/ s < pos \/ s + h.al - 1 > Len(old)
             \/ h.al # CountSign(h.lines, {" ", "-"}) \/ h.bl # CountSign(h.lines, {" ", "+"})
             \/ Len(h.lines) # CountSign(h.lines, {" ", "-", "+"})
             \/ TextsOf(h.lines, {" ", "-"}) # Seg(old, s, s + h.al - 1)
             \/ t # Len(copied) + 1
          THEN Bad
          ELSE Apply(old, hs, k + 1, s + h.al, copied \o TextsOf(h.lines, {" ", "+"}))
\* the hunks lead from old to new, and show nothing but changes and some context
DiffOK(old, new, hs) ==
  /\ Apply(old, hs, 1, 1, <<>>) = new
  /\ \A k \in 1..Len(hs) : CountSign(hs[k].lines, {"-", "+"}) > 0
Reverse(hs) == [k \in 1..Len(hs) |-> [a |-> hs[k].b, al |-> hs[k].bl, b |-> hs[k].a, bl |-> hs[k].al,
  lines |-> [i \in 1..Len(hs[k].lines) |-> <<CASE hs[k].lines[i][1] = "+" -> "-" [] hs[k].lines[i][1] = "-" -> "+" [] OTHER -> " ", hs[k].lines[i][2]>>]]]

\* State entries <<key, old, new>> (textual, "~" for none) that have to be shown
Shown(initial, final, verbose) ==
  {k \in DOMAIN final : final[k] # "~" /\ (initial[k] # final[k] \/ verbose > 0)}
\* a value is shown as it is, or shortened if the output is not verbose
ShownAs(shown, ell, full, verbose) ==
  IF ell THEN verbose = 0 /\ Len(shown) < Len(full) /\ SubSeq(full, 1, Len(shown)) = shown
  ELSE shown = full
=============================================================================
