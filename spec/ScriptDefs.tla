----------------------------- MODULE ScriptDefs -----------------------------
(* An abstract machine for fora scripts: nested scripts with parameters,      *)
(* blocks of remote defaults, exceptions and handlers.                        *)
(*                                                                            *)
(* A program is a sequence of scripts [dir, name, params, code]; code is a    *)
(* sequence of instructions.  The machine keeps what every script should find *)
(* in its own frame; globals g are what an implementation with a single       *)
(* working directory / current script has to save and restore around calls.   *)
EXTENDS Naturals, Sequences, FiniteSets

Given(v) == v # "~"
Pick(a, b) == IF Given(a) THEN a ELSE b
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

Canon(m) == CASE m = "0644" -> "644" [] m = "0755" -> "755" [] m = "022" -> "22" [] m = "077" -> "77" [] m = "0027" -> "27" [] m = "000" -> "0" [] OTHER -> m
BadModes == {"9", "abc"}
UserOf(env, u) == IF u \in DOMAIN env.users THEN u ELSE IF u \in DOMAIN env.uids THEN env.uids[u] ELSE "~"
GroupOf(env, g) == IF g \in DOMAIN env.groups THEN g ELSE IF g \in DOMAIN env.gids THEN env.gids[g] ELSE "~"
UserValid(env, u) == ~Given(u) \/ UserOf(env, u) # "~"
GroupValid(env, u) == ~Given(u) \/ GroupOf(env, u) # "~"
ModeValid(m) == m \notin BadModes

BlockValid(env, d) ==
  /\ UserValid(env, d.as_user) /\ GroupValid(env, d.as_group) /\ UserValid(env, d.owner) /\ GroupValid(env, d.group)
  /\ ModeValid(d.file_mode) /\ ModeValid(d.dir_mode) /\ ModeValid(d.umask)
  /\ (~Given(d.cwd) \/ d.cwd \in env.rdirs)

Overlay(env, d, new) ==
  [as_user |-> IF Given(new.as_user) THEN UserOf(env, new.as_user) ELSE d.as_user,
   as_group |-> IF Given(new.as_group) THEN GroupOf(env, new.as_group) ELSE d.as_group,
   owner |-> IF Given(new.owner) THEN UserOf(env, new.owner) ELSE d.owner,
   group |-> IF Given(new.group) THEN GroupOf(env, new.group) ELSE d.group,
   file_mode |-> Canon(Pick(new.file_mode, d.file_mode)), dir_mode |-> Canon(Pick(new.dir_mode, d.dir_mode)),
   umask |-> Canon(Pick(new.umask, d.umask)), cwd |-> Pick(new.cwd, d.cwd)]

MaxDepth == 4
MaxCalls == 10

Required(script) == {p \in DOMAIN script.params : script.params[p] = "~"}
Bound(script, args) == [p \in DOMAIN script.params |-> IF p \in DOMAIN args THEN args[p] ELSE script.params[p]]

NewFrame(env, prog, k, args, name) ==
  [s |-> k, pc |-> 1, ctl |-> <<>>, dfl |-> env.base, params |-> Bound(prog[k], args),
   name |-> Pick(name, prog[k].name), cwd |-> prog[k].dir,
   saved |-> [cwd |-> "~", script |-> "~"]]     \* values to restore on the way out

Start(env, prog) ==
  [frames |-> <<[NewFrame(env, prog, 1, [x \in {} |-> ""], "cmdline") EXCEPT !.saved = [cwd |-> env.cwd0, script |-> "~none"]]>>,
   exc |-> IF Required(prog[1]) # {} THEN "error" ELSE "~", res |-> "run", calls |-> 0, out |-> <<>>,
   g |-> [cwd |-> prog[1].dir, script |-> "cmdline"]]

Top(m) == Last(m.frames)
SetTop(m, f) == [m EXCEPT !.frames = Append(Front(m.frames), f)]
Emit(m, e) == [m EXCEPT !.out = <<e>>]

PopFrame(m) ==
  LET f == Top(m)
      m1 == [m EXCEPT !.frames = Front(m.frames), !.g = f.saved]
  IN IF Len(m1.frames) = 0 THEN [m1 EXCEPT !.res = IF m.exc = "~" THEN "ok" ELSE m.exc]
     ELSE IF m.exc = "~" THEN SetTop(m1, [Top(m1) EXCEPT !.pc = @ + 1]) ELSE m1

Advance(m) == SetTop(m, [Top(m) EXCEPT !.pc = @ + 1])
Raise(m, k) == [m EXCEPT !.exc = k]

Observation(m) == LET f == Top(m) IN
  [ev |-> "obs", cwd |-> f.cwd, script |-> f.name, params |-> f.params, dfl |-> f.dfl]

Call(env, prog, m, i) ==
  IF Len(m.frames) >= MaxDepth \/ m.calls >= MaxCalls THEN Advance(m)
  ELSE LET m1 == [m EXCEPT !.calls = @ + 1]
           running == {m.frames[j].s : j \in 1..Len(m.frames)}
       IN IF ~i.rec /\ i.s \in running THEN Raise(m1, "error")
          ELSE LET f == [NewFrame(env, prog, i.s, i.args, i.name) EXCEPT !.saved = m.g]
                   m2 == [m1 EXCEPT !.frames = Append(m.frames, f), !.g = [cwd |-> f.cwd, script |-> f.name]]
               IN IF Required(prog[i.s]) \ DOMAIN i.args # {} THEN Raise(m2, "error") ELSE m2

Exec(env, prog, m, i) ==
  LET f == Top(m) IN
  CASE i.i = "obs" -> Emit(Advance(m), Observation(m))
    [] i.i = "block" -> IF BlockValid(env, i.d)
                        THEN SetTop(m, [f EXCEPT !.pc = @ + 1, !.ctl = Append(@, [t |-> "block", to |-> 0, dfl |-> f.dfl]), !.dfl = Overlay(env, @, i.d)])
                        ELSE Raise(m, "error")
    [] i.i = "end" -> SetTop(m, [f EXCEPT !.pc = @ + 1, !.dfl = Last(f.ctl).dfl, !.ctl = Front(@)])
    [] i.i = "try" -> SetTop(m, [f EXCEPT !.pc = @ + 1, !.ctl = Append(@, [t |-> "try", to |-> i.to, dfl |-> f.dfl])])
    [] i.i = "endtry" -> SetTop(m, [f EXCEPT !.pc = @ + 1, !.ctl = Front(@)])
    [] i.i = "raise" -> Raise(m, i.kind)
    [] i.i = "chdir" -> LET m1 == SetTop(m, [f EXCEPT !.pc = @ + 1, !.cwd = i.to]) IN [m1 EXCEPT !.g.cwd = i.to]
    [] i.i = "setparam" -> SetTop(m, [f EXCEPT !.pc = @ + 1, !.params = IF i.p \in DOMAIN @ THEN [@ EXCEPT ![i.p] = i.v] ELSE @])
    [] i.i = "call" -> Call(env, prog, m, i)
    \* only root may write to the directory used by operations
    [] i.i = "op" -> IF f.dfl.as_user = "root" /\ UserValid(env, i.owner) /\ GroupValid(env, i.group) /\ ModeValid(i.mode)
                     THEN LET d == Overlay(env, f.dfl, [as_user |-> "~", as_group |-> "~", owner |-> i.owner, group |-> i.group, file_mode |-> i.mode, dir_mode |-> "~", umask |-> "~", cwd |-> "~"])
                          IN Emit(Advance(m), [ev |-> "op", mode |-> d.file_mode, owner |-> d.owner, group |-> d.group])
                     ELSE Raise(m, "error")

Step(env, prog, m0) ==
  LET m == [m0 EXCEPT !.out = <<>>] IN
  IF m.exc # "~" THEN
    LET f == Top(m) IN
    IF Len(f.ctl) = 0 THEN PopFrame(m)
    ELSE IF Last(f.ctl).t = "block" THEN SetTop(m, [f EXCEPT !.dfl = Last(f.ctl).dfl, !.ctl = Front(@)])
    ELSE Emit(SetTop([m EXCEPT !.exc = "~"], [f EXCEPT !.pc = Last(f.ctl).to, !.dfl = Last(f.ctl).dfl, !.ctl = Front(@)]), [ev |-> "caught", kind |-> m.exc])
  ELSE IF Top(m).pc > Len(prog[Top(m).s].code) THEN PopFrame(m)
  ELSE Exec(env, prog, m, prog[Top(m).s].code[Top(m).pc])
=============================================================================
