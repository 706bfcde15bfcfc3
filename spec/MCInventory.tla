---------------------------- MODULE MCInventory ----------------------------
EXTENDS Inventory
Decl(g, af, be, f) == [name |-> g, after |-> af, before |-> be, file |-> f]
Sub == {<<>>, <<"a">>, <<"b">>, <<"c">>, <<"a", "b">>, <<"a", "c">>, <<"b", "c">>, <<"a", "b", "c">>}
Host(n, gs, f) == [name |-> n, groups |-> gs, file |-> f]
Acts == {"none", "assign", "append"}

\* all relations on three groups (cyclic ones and self-dependencies included)
InitRel(Mem, Inv, Sb) ==
  \E x \in Sb, y \in Sub, z \in Sb, m \in Mem, i \in Inv, p \in Acts, q \in Acts, r \in Acts :
   InitWith([groups |-> <<Decl("a", x, <<>>, "default"), Decl("b", <<>>, y, "default"), Decl("c", z, <<>>, "default")>>,
    auto |-> FALSE, shared |-> FALSE, hosts |-> <<Host("h1", m, "default")>>, bad |-> "none", vars |-> <<"v">>,
    act |-> ("inv" :> [v |-> i] @@ "g:a" :> [v |-> p] @@ "g:b" :> [v |-> q] @@ "g:c" :> [v |-> r] @@ "h:h1" :> [v |-> "none"])])

\* two hosts, memberships, declared variables
InitHosts(M1, M2, R) ==
  \E fa \in {"default", "nofile", "missing"}, f2 \in {"default", "missing"}, n2 \in {"h1", "h2"},
     m1 \in M1, m2 \in M2, i \in {"none", "assign"}, d \in {"none", "assign"}, p \in Acts, q \in Acts, r \in R :
   InitWith([groups |-> <<Decl("a", <<>>, <<>>, fa), Decl("b", <<"a">>, <<>>, "default")>>,
    auto |-> FALSE, shared |-> FALSE, hosts |-> <<Host("h1", m1, "default"), Host(n2, m2, f2)>>, bad |-> "none", vars |-> <<"v">>,
    act |-> ("inv" :> [v |-> i] @@ "d:h1" :> [v |-> d] @@ "g:all" :> [v |-> "none"] @@ "g:a" :> [v |-> p] @@ "g:b" :> [v |-> q] @@ "h:h1" :> [v |-> r] @@ "h:h2" :> [v |-> "append"])])

InitQuick == \/ InitRel({<<"a", "b", "c">>}, {"none"}, {<<>>, <<"a">>, <<"b">>, <<"b", "c">>})
             \/ InitHosts({<<>>, <<"a", "b">>, <<"x">>}, {<<"b">>, <<"b", "a">>}, {"none", "assign"})
InitFull  == \/ InitRel({<<"a", "b", "c">>, <<"a", "c">>}, {"none", "assign"}, Sub)
             \/ InitHosts({<<>>, <<"a">>, <<"a", "b">>, <<"x">>}, {<<>>, <<"b">>, <<"b", "a">>}, {"none", "append", "assign"})
SpecQuick == InitQuick /\ [][Next]_vars /\ WF_vars(Next)
SpecFull  == InitFull /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
