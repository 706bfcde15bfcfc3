------------------------------ MODULE VarDefs ------------------------------
(* Name resolution on hosts and in templates (C21), and the machine running   *)
(* the (nested) scripts in which names are looked up.                         *)
EXTENDS Naturals, Sequences, TLC
(* A value is a record [t |-> type, s |-> text]; maps are functions from names. *)
NoVars == [x \in {} |-> 0]
Undef == [t |-> "undefined", s |-> ""]
Has(m, n) == n \in DOMAIN m
Put(m, n, v) == (n :> v) @@ m
Drop(m, n) == [k \in DOMAIN m \ {n} |-> m[k]]

(* Names every script has by itself; they never count as its variables.        *)
Internal == {"name", "defaults", "current_defaults", "Params", "module"}
Private == {"_p", "__q", "_"}
Exported(sv, n) == Has(sv, n) /\ n \notin Internal /\ n \notin Private /\ sv[n].t # "module"

(* Looking a name up on the host: attributes of the host itself, variables of  *)
(* the host, then exported variables of the running script only.               *)
OnHost(own, hv, sv, n) ==
  CASE n \in Private -> Undef
    [] Has(own, n) -> own[n]
    [] Has(hv, n) -> hv[n]
    [] Exported(sv, n) -> sv[n]
    [] OTHER -> Undef
(* A name used in a template.                                                  *)
InTemplate(ctx, own, hv, sv, n) == IF Has(ctx, n) THEN ctx[n] ELSE OnHost(own, hv, sv, n)

(* One template element and the text it produces, or Undef.                    *)
Element(e, ctx, own, hv, sv, inv) ==
  LET v == InTemplate(ctx, own, hv, sv, e.n)
      a == OnHost(own, hv, sv, e.n)
  IN CASE e.form = "plain" -> v
       [] e.form = "default" -> IF v = Undef THEN [t |-> "str", s |-> "D"] ELSE v
       [] e.form = "defined" -> [t |-> "str", s |-> IF v = Undef THEN "N" ELSE "Y"]
       [] e.form = "host" -> a
       [] e.form = "inventory" -> IF Has(inv, e.n) THEN inv[e.n] ELSE Undef
Texts(es, ctx, own, hv, sv, inv) == [i \in 1..Len(es) |-> Element(es[i], ctx, own, hv, sv, inv)]
Renders(es, ctx, own, hv, sv, inv) == \A i \in 1..Len(es) : Element(es[i], ctx, own, hv, sv, inv) # Undef

(* The machine: stack of frames [k, pc, vars, handlers].                       *)
Frame(k, own) == [k |-> k, pc |-> 1, vars |-> own, hs |-> <<>>]
Top(m) == m.st[Len(m.st)]
SetTop(m, f) == [m EXCEPT !.st[Len(m.st)] = f, !.out = <<>>]
Bump(m, f) == SetTop(m, [f EXCEPT !.pc = @ + 1])
RECURSIVE Unwind(_)
Unwind(m) ==   \* an exception leaves frames until one handles it
  IF m.st = <<>> THEN [m EXCEPT !.res = "error", !.out = <<>>]
  ELSE LET f == Top(m) IN
       IF f.hs = <<>> THEN Unwind([m EXCEPT !.st = SubSeq(m.st, 1, Len(m.st) - 1)])
       ELSE [SetTop(m, [f EXCEPT !.pc = f.hs[Len(f.hs)], !.hs = SubSeq(f.hs, 1, Len(f.hs) - 1)]) EXCEPT !.out = <<[ev |-> "caught"]>>]
Own(env) == env.own
Step(env, prog, m) ==
  LET f == Top(m)
      code == prog[f.k]
  IN IF f.pc > Len(code)
     THEN IF Len(m.st) = 1 THEN [m EXCEPT !.st = <<>>, !.res = "ok", !.out = <<>>]
          ELSE LET n == [m EXCEPT !.st = SubSeq(m.st, 1, Len(m.st) - 1)] IN Bump(n, Top(n))
     ELSE LET i == code[f.pc] IN
       CASE i.i = "set" -> Bump(m, [f EXCEPT !.vars = Put(@, i.n, i.v)])
         [] i.i = "del" -> IF Has(f.vars, i.n) THEN Bump(m, [f EXCEPT !.vars = Drop(@, i.n)]) ELSE Bump(m, f)
         [] i.i = "sethost" -> [Bump(m, f) EXCEPT !.hv = Put(@, i.n, i.v)]
         [] i.i = "look" -> [Bump(m, f) EXCEPT !.out = <<[ev |-> "look", v |-> OnHost(Own(env), m.hv, f.vars, i.n)]>>]
         [] i.i = "tmpl" ->
              LET ctx == [n \in {i.ctx[j].n : j \in 1..Len(i.ctx)} |-> (CHOOSE j \in 1..Len(i.ctx) : i.ctx[j].n = n /\ \A k \in 1..Len(i.ctx) : i.ctx[k].n = n => k <= j)]
                  cv == [n \in DOMAIN ctx |-> i.ctx[ctx[n]].v]
                  ok == Renders(i.es, cv, Own(env), m.hv, f.vars, env.inv)
              IN [Bump(m, f) EXCEPT !.out = <<[ev |-> "tmpl", ok |-> ok,
                    texts |-> IF ok THEN [j \in 1..Len(i.es) |-> Texts(i.es, cv, Own(env), m.hv, f.vars, env.inv)[j].s] ELSE <<>>]>>]
         [] i.i = "try" -> Bump(m, [f EXCEPT !.hs = Append(@, i.to)])
         [] i.i = "endtry" -> Bump(m, [f EXCEPT !.hs = SubSeq(@, 1, Len(@) - 1)])
         [] i.i = "raise" -> Unwind(m)
         [] i.i = "call" -> [m EXCEPT !.st = Append(@, Frame(i.s, NoVars)), !.out = <<>>]
Start(env) == [st |-> <<Frame(1, NoVars)>>, hv |-> env.hv, res |-> "run", out |-> <<>>]
=============================================================================
