----------------------------- MODULE SchemaSmall -----------------------------
(* A small universe of catalogs: one table whose columns, keys and index vary, *)
(* and two tables with and without a foreign key.                              *)
EXTENDS Schema

Col(b, a, nn, def) == [b |-> b, a |-> a, nn |-> nn, def |-> def, id |-> "", coll |-> "", gen |-> "", refs |-> <<>>, ai |-> FALSE]
Gen(refs) == [Col("INT", <<>>, FALSE, "") EXCEPT !.gen = refs \o " + 1", !.refs = <<refs>>]
Con(k, cols, rt, rc) == [k |-> k, cols |-> cols, rt |-> rt, rc |-> rc, upd |-> "", del |-> "", dfr |-> FALSE, idf |-> FALSE, nv |-> FALSE, expr |-> "", refs |-> <<>>]
Idx(u, cols) == [u |-> u, cols |-> cols, desc |-> [i \in DOMAIN cols |-> FALSE], pred |-> "", inc |-> <<>>, kind |-> "", refs |-> cols]
Tab(c, k, i) == [c |-> c, k |-> k, i |-> i, ig |-> <<>>]
If(test, f) == IF test THEN f ELSE EmptyFn

Main(d) == IF d = PG THEN "public" ELSE IF d = MY THEN "db" ELSE "dbo"
Key(d, n) == Main(d) \o "." \o n
PKName(d, n) == IF d = MY THEN "PRIMARY" ELSE n \o "_pkey"

Shapes == [pk : BOOLEAN, type : {"INT", "VARCHAR"}, nn : BOOLEAN, def : BOOLEAN, y : {"", "y", "gen"}, uq : BOOLEAN, ix : BOOLEAN]
Few == {s \in Shapes : (s.def => s.nn) /\ (s.y = "gen" => s.type = "INT") /\ (s.ix => ~s.uq) /\ (s.type = "VARCHAR" => s.pk)}

A(d, s) == Tab((  "id" :> Col("INT", <<>>, s.pk, ""))
               @@ ("x" :> Col(s.type, IF s.type = "INT" THEN <<>> ELSE <<"50">>, s.nn, IF s.def THEN IF s.type = "INT" THEN "1" ELSE "'x'" ELSE ""))
               @@ If(s.y = "y", "y" :> Col("INT", <<>>, FALSE, "")) @@ If(s.y = "gen", "y" :> Gen("x")),
               If(s.pk, PKName(d, "a") :> Con("PK", <<"id">>, "", <<>>)) @@ If(s.uq, "a_x_key" :> Con("UQ", <<"x">>, "", <<>>)),
               If(s.ix, "a_x_idx" :> Idx(FALSE, <<"x">>)))
(* The second table refers to the first, or to itself. *)
B(d, ref) == Tab(("id" :> Col("INT", <<>>, TRUE, "")) @@ ("r" :> Col("INT", <<>>, FALSE, "")),
                 (PKName(d, "b") :> Con("PK", <<"id">>, "", <<>>)) @@ If(ref # "", "b_r_fkey" :> Con("FK", <<"r">>, Key(d, ref), <<"id">>)),
                 EmptyFn)

Cat(d, t) == [s |-> <<Main(d)>>, t |-> t]
Singles(d) == {Cat(d, Key(d, "a") :> A(d, s)) : s \in Few}
Base == [pk |-> TRUE, type |-> "INT", nn |-> FALSE, def |-> FALSE, y |-> "", uq |-> FALSE, ix |-> FALSE]
Doubles(d) == {Cat(d, EmptyFn), Cat(d, Key(d, "b") :> B(d, "")), Cat(d, Key(d, "b") :> B(d, "b"))}
              \cup {Cat(d, (Key(d, "a") :> A(d, s)) @@ (Key(d, "b") :> B(d, r))) : s \in {Base, [Base EXCEPT !.type = "VARCHAR"], [Base EXCEPT !.y = "y"]}, r \in {"", "a", "b"}}
=============================================================================
