------------------------------ MODULE SubsetMC ------------------------------
(* A subset is built by following foreign keys in any order: first, for an    *)
(* extended subset, down to the rows that refer to a row found, then up to    *)
(* the rows a row found refers to. Checked for every foreign key graph over   *)
(* the tables below, all their contents and every selected row: what is built *)
(* is the subset of the specification, nothing that does not belong is ever   *)
(* taken, and following only chains that do not come back to a table, which   *)
(* is what the implementation does, is enough for the graphs it is claimed    *)
(* for.                                                                       *)
EXTENDS Subset, TLC

CONSTANTS Slots,       \* how many foreign keys a table may have, by table
          RowsOf       \* how many rows a table has

Three == [a |-> 0, b |-> 1, c |-> 2]
Ring == [a |-> 1, b |-> 1, c |-> 1]

Tabs == DOMAIN Slots
Col(n) == <<"f1", "f2", "f3">>[n]
Key(i) == <<"1", "2", "3">>[i]
Targets == [t \in Tabs |-> [1..Slots[t] -> Tabs \cup {"none"}]]
Fk(g, t) == {n \in 1..Slots[t] : g[t][n] # "none"}
RECURSIVE List(_, _, _)
List(g, t, n) == IF n > Slots[t] THEN <<>> ELSE (IF g[t][n] = "none" THEN <<>> ELSE <<[cols |-> <<Col(n)>>, rt |-> g[t][n], rc |-> <<"id">>]>>) \o List(g, t, n + 1)
Graphs == {g \in [Tabs -> UNION {Targets[t] : t \in Tabs}] : \A t \in Tabs : g[t] \in Targets[t]}
Contents(g, t) == [1..RowsOf -> [Fk(g, t) -> {Null} \cup {Key(i) : i \in 1..RowsOf}]]
Build(g, d) == [t \in Tabs |-> [pk |-> <<"id">>, fk |-> List(g, t, 1),
    rows |-> [i \in 1..RowsOf |-> [c \in {"id"} \cup {Col(n) : n \in Fk(g, t)} |-> IF c = "id" THEN Key(i) ELSE d[t][i][CHOOSE n \in Fk(g, t) : Col(n) = c]]]]]

VARIABLES g, d,        \* the graph, and the contents chosen so far, by table
          T, R, qu, found, phase
vars == <<g, d, T, R, qu, found, phase>>

Init ==
    /\ g \in Graphs
    /\ \E t \in Tabs, x \in BOOLEAN : qu = [t |-> t, ext |-> x, op |-> "eq", c |-> "id", v |-> "1", bad |-> FALSE]
    /\ d = <<>> /\ T = <<>> /\ R = {} /\ found = {} /\ phase = "fill"
Fill ==
    /\ phase = "fill" /\ DOMAIN d # Tabs
    /\ \E t \in Tabs \ DOMAIN d :
          /\ t = CHOOSE u \in Tabs \ DOMAIN d : TRUE
          /\ \E x \in Contents(g, t) : d' = (t :> x) @@ d
    /\ UNCHANGED <<g, T, R, qu, found, phase>>
Select ==
    /\ phase = "fill" /\ DOMAIN d = Tabs
    /\ T' = Build(g, d)
    /\ R' = Refers(T')
    /\ found' = Selected(T', qu)
    /\ phase' = "selected"
    /\ UNCHANGED <<g, d, qu>>
Start == phase = "selected" /\ phase' = (IF qu.ext THEN "down" ELSE "up") /\ UNCHANGED <<g, d, T, R, qu, found>>
Descending == phase = "down" /\ \E e \in R : e[2] \in found /\ e[1] \notin found /\ found' = found \cup {e[1]} /\ UNCHANGED <<g, d, T, R, qu, phase>>
Turn == phase = "down" /\ (\A e \in R : e[2] \in found => e[1] \in found) /\ phase' = "up" /\ UNCHANGED <<g, d, T, R, qu, found>>
Climbing == phase = "up" /\ \E e \in R : e[1] \in found /\ e[2] \notin found /\ found' = found \cup {e[2]} /\ UNCHANGED <<g, d, T, R, qu, phase>>
Next == Fill \/ Select \/ Start \/ Descending \/ Turn \/ Climbing
Spec == Init /\ [][Next]_vars

Ended == phase = "up" /\ \A e \in R : e[1] \in found => e[2] \in found
Minimal == phase \in {"down", "up"} => found \subseteq Whole(T, R, qu)
Complete == Ended => found = Whole(T, R, qu) /\ Selected(T, qu) \subseteq found

(* Tables that refer to each other in a circle. *)
Leads == UNION {{<<t, T[t].fk[n].rt>> : n \in DOMAIN T[t].fk} : t \in Tabs}
Circular == \E t \in Tabs : t \in Closure(Leads, {e[2] : e \in {e \in Leads : e[1] = t}})
Enough == phase = "selected" =>
          /\ Sure(T, R, {}, qu) \subseteq Whole(T, R, qu)
          /\ Straight(T, R, qu) \subseteq Whole(T, R, qu)
          /\ (~qu.ext /\ ~Circular => Straight(T, R, qu) = Whole(T, R, qu))
          /\ (qu.ext /\ Branching(T, {}, qu.t) => Straight(T, R, qu) = Whole(T, R, qu))
=============================================================================
