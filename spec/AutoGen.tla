------------------------------ MODULE AutoGen -------------------------------
(* Enumerates small SQLite databases and declared schemas: every combination  *)
(* of one table's column definition, keys and index before and after, and     *)
(* every pair of two-table schemas with and without a foreign key.            *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

Col(b, a, nn, def) == [b |-> b, a |-> a, nn |-> nn, def |-> def, id |-> "", coll |-> "", gen |-> "", ai |-> FALSE]
Con(k, cols, rt, rc, del) == [k |-> k, cols |-> cols, rt |-> rt, rc |-> rc, upd |-> "", del |-> del, dfr |-> FALSE, idf |-> FALSE, nv |-> FALSE, expr |-> ""]
Idx(u, cols) == [u |-> u, cols |-> cols, desc |-> <<FALSE>>, pred |-> "", inc |-> <<>>, kind |-> ""]
Tab(o, c, k, i) == [o |-> o, c |-> c, k |-> k, i |-> i, ig |-> <<>>]
Cat(t) == [s |-> <<>>, t |-> t]
None == [x \in {} |-> x]

PK == "PK(id)" :> Con("PK", <<"id">>, "", <<>>, "")
Types == {<<"INT", <<>>>>, <<"VARCHAR", <<"50">>>>}

(* t = [type, nn, def, uq, idx ("", "i", "u"), y, pk] *)
Shape(ts, ys) == [type : ts, nn : BOOLEAN, def : {"", "1"}, uq : BOOLEAN, idx : {"", "i", "u"}, y : ys, pk : BOOLEAN]
One(s) ==
    Tab(<<"id", "x">> \o (IF s.y THEN <<"y">> ELSE <<>>),
        [id |-> Col("INTEGER", <<>>, FALSE, ""), x |-> Col(s.type[1], s.type[2], s.nn, s.def)] @@ (IF s.y THEN [y |-> Col("TEXT", <<>>, FALSE, "'x'")] ELSE None),
        (IF s.pk THEN PK ELSE None) @@ (IF s.uq THEN "UQ(x)" :> Con("UQ", <<"x">>, "", <<>>, "") ELSE None),
        IF s.idx = "" THEN None ELSE "t_x_idx" :> Idx(s.idx = "u", <<"x">>))

Before == {s \in Shape({<<"INT", <<>>>>}, {TRUE}) : s.idx # "u" /\ (s.nn => s.def = "")}
After == {s \in Shape(Types, BOOLEAN) : s.nn => s.def = "1"}

Row(id, x) == [id |-> id, x |-> x]
Singles == {[init |-> Cat(".t" :> One(a)), decl |-> Cat(".t" :> One(b)), drop |-> d, rows |-> (".t" :> <<Row("1", "7"), Row("2", "8")>>), fk |-> FALSE]
            : a \in Before, b \in After, d \in BOOLEAN}

A(t) == Tab(<<"id", "x">>, [id |-> Col("INTEGER", <<>>, FALSE, ""), x |-> Col(t, <<>>, FALSE, "")], PK, None)
B(ref, del) == Tab(<<"id", "r">>, [id |-> Col("INTEGER", <<>>, FALSE, ""), r |-> Col("INT", <<>>, FALSE, "")],
              PK @@ (IF ref = "" THEN None ELSE "FK(r)" :> Con("FK", <<"r">>, ref, <<"id">>, del)), None)
Pairs == {Cat(None)} \cup {Cat(".a" :> A("INT")), Cat(".b" :> B("", ""))}
         \cup {Cat((".a" :> A(t)) @@ (".b" :> B(r, del))) : t \in {"INT", "TEXT"}, r \in {"", ".a", ".b"}, del \in {"CASCADE", "RESTRICT"}}
PairRows(c) == (IF ".a" \in DOMAIN c.t THEN ".a" :> <<Row("1", "7"), Row("2", "8")>> ELSE None)
               @@ (IF ".b" \in DOMAIN c.t THEN ".b" :> <<[id |-> "1", r |-> "1"]>> ELSE None)
Doubles == {[init |-> a, decl |-> b, drop |-> d, rows |-> PairRows(a), fk |-> FALSE] : a \in Pairs, b \in Pairs, d \in BOOLEAN}

Step(c, dry) == [decl |-> c.decl, drop |-> c.drop, dry |-> dry, via |-> "catalog"]
Scenario(c) == [id |-> "", fk |-> c.fk, style |-> 0, init |-> c.init, rows |-> c.rows, extra |-> <<>>, steps |-> <<Step(c, TRUE), Step(c, FALSE), Step(c, FALSE)>>]

VARIABLE c
GInit == c \in Singles \cup Doubles
GNext == FALSE /\ c' = c
Write == PrintT("SCENARIO " \o ToJson(Scenario(c)))
=============================================================================
