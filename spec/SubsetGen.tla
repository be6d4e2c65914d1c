------------------------------ MODULE SubsetGen -----------------------------
(* Enumerates subsets: every graph of up to three foreign keys over three     *)
(* tables of two rows, all contents of the foreign keys, and every table to   *)
(* select a row of.                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

Tabs == {"a", "b", "c"}
Slot == <<"b", "c", "c">>
Vals == {<<"1", "2">>, <<"2", "1">>, <<"2", "2">>, <<"~", "1">>, <<"2", "~">>}
VARIABLE c
GInit == \E g \in [1..3 -> Tabs \cup {"none"}], d \in [1..3 -> Vals], t \in Tabs, x \in BOOLEAN :
    /\ \A n \in 1..3 : g[n] = "none" => d[n] = <<"1", "2">>
    /\ c = [g |-> g, d |-> d, t |-> t, x |-> x]
GNext == FALSE /\ c' = c
Of(t) == SelectSeq(<<1, 2, 3>>, LAMBDA n : Slot[n] = t /\ c.g[n] # "none")
Name(n) == <<"f1", "f2", "f3">>[n]
Tab(t) ==
    [n |-> t, cols |-> <<[n |-> "id", ty |-> "INTEGER"]>> \o [i \in 1..Len(Of(t)) |-> [n |-> Name(Of(t)[i]), ty |-> "INTEGER"]],
     pk |-> <<"id">>, fk |-> <<>> \o [i \in 1..Len(Of(t)) |-> [cols |-> <<Name(Of(t)[i])>>, rt |-> c.g[Of(t)[i]], rc |-> <<"id">>]],
     rows |-> <<>> \o [r \in 1..2 |-> <<ToString(r)>> \o [i \in 1..Len(Of(t)) |-> c.d[Of(t)[i]][r]]], gen |-> FALSE]
Scenario == [id |-> "", tabs |-> <<Tab("a"), Tab("b"), Tab("c")>>,
             queries |-> <<[t |-> c.t, ext |-> c.x, op |-> "eq", c |-> "id", v |-> "1", form |-> "plain"]>>, exclude |-> <<>>, fault |-> 0, next |-> FALSE]
Write == PrintT("SCENARIO " \o ToJson(Scenario))
=============================================================================
