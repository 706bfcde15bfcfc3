------------------------------ MODULE LogTrace ------------------------------
(* Validates the output of operations (C26).                                  *)
EXTENDS LogDefs, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, verdict
vars == <<c, l, verdict>>
Tr == Cases[c].tr
Ev == Tr.events
Cli == Cases[c].scn.cli
\* what the options of the command line stand for
Opts == Cli.before \o Cli.after
Given(S) == \E i \in 1..Len(Opts) : Opts[i] \in S
RECURSIVE CountV(_)
CountV(i) == IF i = 0 THEN 0 ELSE CountV(i - 1) + (CASE Opts[i] \in {"-v", "--verbose"} -> 1 [] Opts[i] = "-vv" -> 2 [] OTHER -> 0)
A == IF ~Cli.on THEN Cases[c].scn.args
     ELSE [verbose |-> IF Given({"--debug"}) THEN 99 ELSE CountV(Len(Opts)), changes |-> ~Given({"--no-changes"}), diff |-> Given({"--diff"}),
           no_color |-> Given({"--no-color"}) \/ Cli.env \/ ~Cli.tty, dry |-> Given({"--dry", "--dry-run", "--pretend"})]
\* the program itself names the host and the script, and succeeds
CliVerdict ==
  LET o == Tr.cli IN
  CASE ~Cli.on -> "OK"
    [] o.rc # 0 -> "result-depends-on-output-options(cli)"
    [] o.ansi /\ A.no_color -> "colored-although-disabled(cli)"
    [] o.lines # <<"host x via vrep:x", "script D/deploy.py (cmdline)">> -> "unexpected-output(cli)"
    [] OTHER -> "OK"
Init == c \in 1..Len(Cases) /\ l = 1 /\ verdict = "run"

Action(d) == IF d.old = Absent THEN "created" ELSE IF d.new = Absent THEN "deleted" ELSE "modified"
\* one printed difference p for the change d
DiffVerdict(d, p) ==
  CASE p.file # d.file -> "difference-of-wrong-file"
    [] p.action # Action(d) -> "wrong-kind-of-change-shown"
    [] ~DiffOK(Lines(d.old), Lines(d.new), p.hunks) -> "difference-does-not-lead-to-new-content"
    [] OTHER -> "OK"
\* only files whose content changes
Changes(ds) == SelectSeq(ds, LAMBDA d : d.old # d.new)
DiffsVerdict(want, got) ==
  CASE Len(want) # Len(got) -> "wrong-number-of-differences"
    [] \E i \in 1..Len(want) : DiffVerdict(want[i], got[i]) # "OK" ->
         LET i == CHOOSE k \in 1..Len(want) : DiffVerdict(want[k], got[k]) # "OK" IN DiffVerdict(want[i], got[i])
    [] OTHER -> "OK"

Title(e) == e.op \o (IF A.dry THEN " (dry)" ELSE "") \o " " \o e.desc \o (IF e.name = "~" THEN "" ELSE " (" \o e.name \o ")")
Keys(s) == {s[i][1] : i \in 1..Len(s)}
Fn(s) == [k \in Keys(s) |-> LET i == CHOOSE i \in 1..Len(s) : s[i][1] = k IN s[i][2]]
ItemsVerdict(e, o) ==
  LET ini == Fn(e.initial) fin == Fn(e.final) want == Shown(ini, fin, A.verbose)
      \* an entry is identified by its (possibly shortened) key
      Of(k) == {i \in 1..Len(o.items) : ShownAs(o.items[i].k, o.items[i].kell, k, A.verbose)}
      Item(k) == o.items[CHOOSE i \in Of(k) : TRUE]
  IN CASE \E i \in 1..Len(o.items) : \A k \in want : i \notin Of(k) -> "unchanged-or-unknown-entry-shown"
       [] \E k \in want : Cardinality(Of(k)) # 1 -> "changed-entry-not-shown-once"
       [] \E k \in want : ~ShownAs(Item(k).new, Item(k).nell, fin[k], A.verbose) -> "wrong-new-value-shown"
       [] \E k \in want : ini[k] # "~" /\ ini[k] # fin[k] /\ ~(Item(k).has /\ ShownAs(Item(k).old, Item(k).oell, ini[k], A.verbose)) -> "wrong-old-value-shown"
       [] \E k \in want : (ini[k] = "~" \/ ini[k] = fin[k]) /\ Item(k).has -> "old-value-invented"
       [] OTHER -> "OK"
\* the report of one operation
OpVerdict(e) ==
  LET o == e.out IN
  CASE e.res # e.want -> "result-depends-on-output-options(" \o e.res \o ")"
    [] e.effect # (IF A.dry THEN e.before ELSE e.after) -> "effect-depends-on-output-options"
    [] o.title # Title(e) -> "wrong-title"
    [] A.verbose < 99 /\ o.early # 0 -> "preliminary-status-without-debugging"
    [] e.want # "ok" /\ o.failure # e.message -> "failure-not-reported"
    [] e.want = "ok" /\ o.failure # "~" -> "failure-invented"
    [] (e.want # "ok" \/ ~A.changes) /\ (o.items # <<>> \/ o.diffs # <<>>) -> "changes-shown-although-disabled"
    [] e.want = "ok" /\ A.changes /\ ItemsVerdict(e, o) # "OK" -> ItemsVerdict(e, o)
    [] ~A.diff /\ o.diffs # <<>> -> "differences-shown-although-disabled"
    [] e.want = "ok" /\ A.changes /\ A.diff -> DiffsVerdict(Changes(e.diffs), o.diffs)
    [] OTHER -> "OK"
Judge(e) == IF e.ansi /\ A.no_color THEN "colored-although-disabled"
            ELSE IF e.garbage # <<>> THEN "unexpected-output"
            ELSE IF e.kind = "diff" THEN DiffsVerdict(<<e>>, e.out.diffs) ELSE OpVerdict(e)
Finish(v) == verdict' = v /\ PrintT(<<"V", c, v>>) /\ UNCHANGED <<c, l>>
Step ==
  /\ verdict = "run"
  /\ IF Tr.outcome # "ok" THEN Finish("driver-" \o Tr.outcome)
     ELSE IF l > Len(Ev) THEN Finish(CliVerdict)
     ELSE LET v == Judge(Ev[l]) IN IF v # "OK" THEN Finish(v) ELSE l' = l + 1 /\ UNCHANGED <<c, verdict>>
Spec == Init /\ [][Step]_vars
=============================================================================
