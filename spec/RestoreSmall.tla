---------------------------- MODULE RestoreSmall ----------------------------
(* A small universe of databases: a table whose columns, keys and index vary, *)
(* alone or with a second one in the same or in another schema that refers to *)
(* it, to itself or is referred to.                                           *)
EXTENDS SchemaSmall, Restore

Refs == [b : {"", "a", "b"}, a : BOOLEAN, apart : BOOLEAN]

Pair(d, s, r) ==
    LET ka == Key(d, "a")
        kb == IF r.apart THEN "app.b" ELSE Key(d, "b")
        ta == A(d, s)
        fka == If(r.a, "a_x_fkey" :> Con("FK", <<"x">>, kb, <<"id">>))
        tb == B(d, "")
        fkb == If(r.b # "", "b_r_fkey" :> Con("FK", <<"r">>, IF r.b = "a" THEN ka ELSE kb, <<"id">>))
    IN  [s |-> IF r.apart THEN <<Main(d), "app">> ELSE <<Main(d)>>,
         t |-> (ka :> [ta EXCEPT !.k = @ @@ fka]) @@ (kb :> [tb EXCEPT !.k = @ @@ fkb])]

Databases(d) == Singles(d) \cup {Pair(d, s, r) : <<s, r>> \in {x \in Few \X Refs : (x[2].b = "a" => x[1].pk) /\ (x[2].a => x[1].type = "INT")}}
=============================================================================
