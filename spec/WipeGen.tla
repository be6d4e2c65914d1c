------------------------------ MODULE WipeGen -------------------------------
(* Enumerates databases to wipe: every foreign key graph over two tables (and *)
(* every one with at most three edges over three), with views over tables and *)
(* over views, for every dialect, with a failure at each call.                *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

Name(i) == <<"a", "b", "c">>[i]
Obj(k, s, n, own, on, del) == [k |-> k, s |-> s, n |-> n, a |-> "", own |-> own, on |-> on, del |-> del, nn |-> (del = "CASCADE")]
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})

Cur(d) == CASE d = "postgres" -> "public" [] d = "mysql" -> "db" [] d = "sqlserver" -> "dbo" [] d = "sqlite" -> ""

Objs(d, nt, fks, view, del) ==
    LET s == Cur(d)
        tabs == [i \in 1..nt |-> Obj("table", s, Name(i), 0, <<>>, "")]
        f == SeqOf(fks)
        fk == [i \in 1..Len(f) |-> Obj("fk", s, "fk" \o ToString(i), f[i][1], <<f[i][2]>>, del)]
        n == nt + Len(f)
        views == CASE view = 0 -> <<>>
                   [] view = 1 -> <<Obj("view", s, "v", 0, <<nt>>, "")>>
                   [] view = 2 -> <<Obj("view", s, "v", 0, <<1>>, ""), Obj("view", s, "u", 0, <<n + 1, nt>>, "")>>
    IN  tabs \o fk \o views

Graphs == {[nt |-> 2, fks |-> X] : X \in SUBSET ((1..2) \X (1..2))}
          \cup {[nt |-> 3, fks |-> X] : X \in {Y \in SUBSET ((1..3) \X (1..3)) : Cardinality(Y) \in 1..3}}

Faults == {0, 1, 2, 3}

VARIABLE c
GInit == \E d \in {"sqlite", "postgres", "mysql", "sqlserver"}, g \in Graphs, v \in 0..2, f \in Faults, del \in {"", "CASCADE", "RESTRICT"} :
            /\ (g.nt = 3 => (f = 0 \/ v = 2)) /\ (del # "" => d = "sqlite")
            /\ c = [d |-> d, g |-> g, v |-> v, f |-> f, del |-> del]
GNext == FALSE /\ c' = c
Scenario == LET base == [id |-> "", d |-> c.d, objs |-> Objs(c.d, c.g.nt, c.g.fks, c.v, c.del), rows |-> TRUE, fk |-> TRUE, upto |-> c.f, shuf |-> c.f]
            IN  IF c.f = 0 THEN base ELSE base @@ [fault |-> [n |-> c.f, kind |-> "err"]]
Write == PrintT("SCENARIO " \o ToJson(Scenario))
=============================================================================
