------------------------------- MODULE Script -------------------------------
(* All programs of two small scripts: whatever they do, globals are those of  *)
(* the running frame, and at the end those from before.                       *)
EXTENDS ScriptDefs, TLC
CONSTANTS Len1, Len2
VARIABLES prog, m
vars == <<prog, m>>

N8 == [as_user |-> "~", as_group |-> "~", owner |-> "~", group |-> "~", file_mode |-> "~", dir_mode |-> "~", umask |-> "~", cwd |-> "~"]
Env == [users |-> [root |-> 0, u1 |-> 1], uids |-> [x \in {"1"} |-> "u1"], groups |-> [root |-> 0], gids |-> [x \in {"0"} |-> "root"], rdirs |-> {"/r"}, cwd0 |-> "/start",
        base |-> [as_user |-> "root", as_group |-> "root", owner |-> "root", group |-> "root", file_mode |-> "600", dir_mode |-> "700", umask |-> "77", cwd |-> "/tmp"]]
\* block bodies are closed by construction: <<block, x, end>> and <<try, x, y, endtry>>
Simple == {[i |-> "obs"], [i |-> "raise", kind |-> "boom"], [i |-> "chdir", to |-> "/elsewhere"], [i |-> "setparam", p |-> "x", v |-> "set"]}
          \cup {[i |-> "call", s |-> k, args |-> a, rec |-> r, name |-> "~"] : k \in {1, 2}, r \in BOOLEAN, a \in {[x |-> "arg"]}}
          \cup {[i |-> "call", s |-> 2, args |-> [zz |-> "arg"], rec |-> FALSE, name |-> "~"]}
Blk(u) == [i |-> "block", d |-> [N8 EXCEPT !.as_user = u, !.file_mode = "0644"]]
Body(n) == UNION {[1..k -> Simple] : k \in 0..n}
Shapes(b, k) == {b, <<Blk("u1")>> \o b \o <<[i |-> "end"], [i |-> "obs"]>>,
                 <<Blk("ghost")>> \o b \o <<[i |-> "end"]>>,
                 <<[i |-> "try", to |-> Len(b) + 5], Blk("1")>> \o b \o <<[i |-> "end"], [i |-> "endtry"], [i |-> "obs"]>>}
Init ==
  /\ \E b1 \in Body(Len1), b2 \in Body(Len2) : \E c1 \in Shapes(b1, 1), c2 \in Shapes(b2, 2) :
       prog = <<[dir |-> "/a", name |-> "s1", params |-> [x |-> "dflt"], code |-> c1],
                [dir |-> "/b", name |-> "s2", params |-> [x |-> "~"], code |-> c2]>>
  /\ m = Start(Env, prog)
Next == m.res = "run" /\ m' = Step(Env, prog, m) /\ UNCHANGED prog
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

GlobalsMatchFrame == m.res = "run" => m.g = [cwd |-> Top(m).cwd, script |-> Top(m).name]
Restored == m.res # "run" => m.g = [cwd |-> Env.cwd0, script |-> "~none"]
CalleeStartsFromBase == m.res = "run" /\ Top(m).pc = 1 /\ m.exc = "~" => Top(m).dfl = Env.base /\ Top(m).ctl = <<>>
DefaultsMatchBlocks == m.res = "run" => LET f == Top(m) IN (\A j \in 1..Len(f.ctl) : f.ctl[j].t # "block") => f.dfl = Env.base
NoUnallowedRecursion == m.res = "run" => \A j \in 1..Len(m.frames) : \A k \in 1..(j - 1) :
     m.frames[j].s = m.frames[k].s => prog[m.frames[j-1].s].code[m.frames[j-1].pc].rec
ParamsBound == m.res = "run" /\ m.exc = "~" => \A p \in DOMAIN Top(m).params : Top(m).params[p] # "~"
Terminates == <>(m.res # "run")
=============================================================================
