------------------------------ MODULE ErrTrace ------------------------------
(* Validates what a run of nested scripts says about failures (C28): the      *)
(* program is interpreted here, with failures as in ErrDefs.                  *)
EXTENDS ErrDefs, Integers, FiniteSets, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, verdict
S == Cases[c].scn
Tr == Cases[c].tr
F(i) == S.scripts[i + 1].path
None == [type |-> "~"]
\* where a statement is entered on the module's level
ML(st, line) == IF st.fn THEN st.cline ELSE line
Exc(i, st, type, key, deep, proc, printed) ==
  [type |-> type, key |-> key, stack |-> <<>>, placed |-> FALSE, proc |-> proc, printed |-> printed, base |-> FALSE,
   first |-> <<F(i), ML(st, st.line)>>, last |-> IF deep THEN <<"~", 0>> ELSE <<F(i), st.line>>]
BaseExc(i, st, type) == [Exc(i, st, type, "~", FALSE, "~", TRUE) EXCEPT !.base = TRUE]
Proc(st) == <<st.m, st.code, "out-" \o st.m \o "\\xff", "err-" \o st.m>>
\* results: the failure (or None), what was printed about processes, and the titles that were printed
Res(e, p, l) == [exc |-> e, procs |-> p, log |-> l]
Title(depth, kind, what, name) == <<2 * depth, kind, what, name>>
RECURSIVE RunScript(_, _, _), RunStmts(_, _, _, _)
\* active: the scripts that are running, the last one being i; stack: the calls that led there
Base(i, st, active, stack) ==
  LET depth == Len(active) op == <<Title(depth, "probe", st.m, "~")>> IN
  CASE st.k = "ok" -> Res(None, <<>>, op)
    [] st.k = "call" /\ st.target \in {active[j] : j \in 1..depth} -> Res(Exc(i, st, "ValueError", "~", TRUE, "~", TRUE), <<>>, <<>>)
    [] st.k = "call" /\ S.scripts[st.target + 1].broken -> Res([Exc(i, st, "SyntaxError", "~", TRUE, "~", TRUE) EXCEPT !.stack = Append(stack, <<F(i), st.line, st.func>>), !.placed = TRUE], <<>>, <<Title(depth, "script", st.rel, st.name)>>)
    [] st.k = "call" -> LET r == RunScript(st.target, active, Append(stack, <<F(i), st.line, st.func>>)) IN [r EXCEPT !.log = <<Title(depth, "script", st.rel, st.name)>> \o @]
    [] st.k = "missing" -> Res(Exc(i, st, "FileNotFoundError", st.m, TRUE, "~", TRUE), <<>>, <<>>)
    [] st.k = "value" -> Res(Exc(i, st, "ValueError", st.m, FALSE, "~", TRUE), <<>>, <<>>)
    [] st.k = "assert" -> Res(Exc(i, st, "AssertionError", st.m, FALSE, "~", TRUE), <<>>, <<>>)
    [] st.k = "custom" -> Res(Exc(i, st, "Custom", st.m, FALSE, "~", TRUE), <<>>, <<>>)
    [] st.k = "undef" -> Res(Exc(i, st, "AttributeError", st.m, TRUE, "~", TRUE), <<>>, <<>>)
    [] st.k = "proc" -> Res(Exc(i, st, "CalledProcessError", st.m, TRUE, Proc(st), FALSE), <<>>, <<>>)
    [] st.k = "opproc" -> Res(Exc(i, st, "CalledProcessError", st.m, FALSE, Proc(st), TRUE), <<Proc(st)>>, op)
    [] st.k \in {"opfail", "opraise"} -> Res(IF st.check THEN Exc(i, st, "OperationError", st.m, FALSE, "~", TRUE) ELSE None, <<>>, op)
    [] st.k = "opexc" -> Res(Exc(i, st, "LookupError", st.m, TRUE, "~", TRUE), <<>>, op)
    [] st.k = "exit" -> Res(BaseExc(i, st, "exit"), <<>>, <<>>)
    [] st.k = "kbd" -> Res(BaseExc(i, st, "KeyboardInterrupt"), <<>>, <<>>)
Stmt(i, st, active, stack) ==
  LET r == Base(i, st, active, stack) IN
  CASE r.exc.type = "~" \/ r.exc.base \/ st.h \in {"none", "reraise"} -> r
    [] st.h = "swallow" -> [r EXCEPT !.exc = None]
    [] OTHER -> [r EXCEPT !.exc = [Exc(i, [st EXCEPT !.line = st.hline], "RuntimeError", "w" \o st.m, FALSE, "~", TRUE) EXCEPT !.base = FALSE]]
RunStmts(i, k, active, stack) ==
  IF k > Len(S.scripts[i + 1].stmts) THEN Res(None, <<>>, <<>>)
  ELSE LET r == Stmt(i, S.scripts[i + 1].stmts[k], active, stack) IN
       IF r.exc.type # "~" THEN r
       ELSE LET q == RunStmts(i, k + 1, active, stack) IN Res(q.exc, r.procs \o q.procs, r.log \o q.log)
RunScript(i, active, stack) ==
  LET r == RunStmts(i, 1, Append(active, i), stack) IN
  IF r.exc.type = "~" \/ r.exc.base THEN r
  ELSE Res(Leaves(r.exc, stack), r.procs \o (IF r.exc.printed THEN <<>> ELSE <<r.exc.proc>>), r.log)
Whole == LET r == RunScript(0, <<>>, <<>>) IN [r EXCEPT !.log = <<Title(0, "script", "deploy.py", "cmdline")>> \o @]
Verdict ==
  LET w == Whole e == w.exc IN
  CASE Tr.outcome # "ok" -> "driver-" \o Tr.outcome
    [] Tr.cwd -> "working-directory-not-restored"
    [] e.type = "~" /\ Tr.rc # 0 -> "run-failed-needlessly"
    [] e.type = "exit" /\ Tr.rc # 3 -> "exit-status-lost"
    [] e.type \notin {"~", "exit"} /\ Tr.rc # 1 -> "failure-reported-as-success"
    [] Tr.procs # w.procs -> "output-of-failed-processes"
    [] Tr.lines # w.log -> "titles-of-scripts-and-operations"
    [] e.type \in {"~", "exit"} -> IF Tr.final # "" THEN "failure-reported-that-did-not-end-the-run" ELSE "OK"
    [] Tr.type # e.type \/ (e.key # "~" /\ Tr.key # e.key) -> "wrong-failure-reported"
    [] S.debug \/ e.base -> "OK"
    [] Tr.stack # e.stack \/ Tr.stacks # (IF e.stack = <<>> THEN 0 ELSE 1) -> "wrong-script-stack"
    [] Tr.first # e.first -> "wrong-script-or-line-reported"
    [] e.last # <<"~", 0>> /\ Tr.last # e.last -> "wrong-origin-reported"
    [] OTHER -> "OK"
Init == c \in 1..Len(Cases) /\ verdict = "run"
Next == verdict = "run" /\ verdict' = Verdict /\ PrintT(<<"V", c, Verdict>>) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, verdict>>
=============================================================================
