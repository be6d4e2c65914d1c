------------------------------ MODULE LoadGen -------------------------------
(* Enumerates loads: the entries of a dump in every order, in every kind of   *)
(* container, into tables with and without rows, failing at chosen points and *)
(* loaded once or twice.                                                      *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Col(n, nn) == [n |-> n, ty |-> "TEXT", nn |-> nn]
Tab(n, rows) == [n |-> n, cols |-> <<Col("id", TRUE), Col("x", FALSE)>>, key |-> <<"id">>, rows |-> rows]
File(name, kind, t, cols, recs) == [name |-> name, kind |-> kind, t |-> t, cols |-> cols, recs |-> recs, empty |-> FALSE]

VARIABLE c
GInit == \E d \in {"sqlite", "postgres", "mysql", "sqlserver"}, k \in {"dir", "zip", "tgz", "tar.gz"}, p \in Perms(5), prior \in 0..1, f \in {0, 6, 11}, again \in BOOLEAN :
    /\ (again => d = "sqlite" /\ f = 0)
    /\ c = [d |-> d, k |-> k, p |-> p, prior |-> prior, f |-> f, again |-> again]
GNext == FALSE /\ c' = c
Bad == c.prior = 1 /\ c.p[1] = 1 /\ c.d = "sqlite"
Entries == <<File("t.csv", "csv", "t", <<"x", "id">>, <<<<"a", "1">>, <<"\\N", "2">>, <<"c", IF Bad THEN "\\N" ELSE "3">>>>),
             File("u.csv", "csv", "u", <<"id", "x">>, <<<<"1", "q">>>>),
             [name |-> "schema.sql", kind |-> IF c.again THEN "mark" ELSE "create", t |-> IF c.again THEN "t" ELSE "u", cols |-> <<>>, recs |-> <<>>, empty |-> FALSE, tab |-> Tab("u", <<>>)],
             File("indexes.sql", IF c.d = "sqlite" /\ ~c.again THEN "unique" ELSE "mark", "u", <<"x">>, <<>>),
             File("constraints.sql", "mark", "t", <<>>, <<>>)>>
Prior == IF c.prior = 0 THEN <<>> ELSE <<<<"2", "old">>, <<"9", "kept">>>>
Scenario == [id |-> "", d |-> c.d, tabs |-> <<Tab("t", Prior)>> \o (IF c.again THEN <<Tab("u", <<>>)>> ELSE <<>>),
             items |-> <<[kind |-> c.k, name |-> IF c.k = "dir" THEN "dump" ELSE "dump." \o c.k, files |-> <<>> \o [i \in 1..5 |-> Entries[c.p[i]]]]>>,
             null |-> "", bin |-> "", nonull |-> FALSE, nobin |-> FALSE, tsint |-> FALSE, size |-> 2, fk |-> (c.prior = 0), verbose |-> FALSE,
             twice |-> c.again, fault |-> c.f]
Write == PrintT("SCENARIO " \o ToJson(Scenario))
=============================================================================
