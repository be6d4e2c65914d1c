------------------------------ MODULE DumpGen -------------------------------
(* Enumerates dumps: rows of short fields over the characters that matter in  *)
(* a dump, in tables of one and two columns, for every kind of container; and *)
(* every restriction of a dump of three tables with every failing call.       *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

Chars == {"a", ",", "\"", "\n", "\\", " ", "\r", "N"}
Strings(n) == UNION {[1..k -> Chars] : k \in 0..n}
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE Head(s) \o Join(Tail(s))
(* The NULL marker is not a value that can be told from NULL. *)
Texts(n) == {"t:" \o Join(s) : s \in Strings(n)} \ {"t:\\N"}
Values(n) == Texts(n) \cup {"~", "x:00", "x:", "x:5c4e"}

Col(b) == [b |-> b, a |-> <<>>, nn |-> FALSE, def |-> "", id |-> "", coll |-> "", gen |-> "", ai |-> FALSE]
Type(v) == IF SubSeq(v, 1, 1) = "x" THEN "BLOB" ELSE "TEXT"
Key(k, cols, rt, rc) == [k |-> k, cols |-> cols, rt |-> rt, rc |-> rc, upd |-> "", del |-> "", dfr |-> FALSE, idf |-> FALSE, nv |-> FALSE, expr |-> ""]
Table(o, c, k) == [o |-> o, c |-> c, k |-> k, i |-> <<>>, ig |-> <<>>]

Base == [id |-> "", style |-> 0, schemaonly |-> FALSE, dataonly |-> FALSE, tables |-> <<>>, exclude |-> <<>>, null |-> "", bin |-> "",
         history |-> FALSE, fault |-> 0, next |-> FALSE, size |-> 2]
One(v, k) == [kind |-> k, init |-> [s |-> <<>>, t |-> (".t" :> Table(<<"v">>, ("v" :> Col(Type(v))), <<>>))], data |-> (".t" :> <<<<v>>, <<"~">>>>)]
Two(v, w, k) == [kind |-> k, init |-> [s |-> <<>>, t |-> (".t" :> Table(<<"v", "w">>, ("v" :> Col(Type(v)) @@ "w" :> Col(Type(w))), <<>>))],
                 data |-> (".t" :> <<<<v, w>>, <<"~", w>>>>)]
Ints(r) == <<>> \o [i \in 1..r |-> <<"i:" \o ToString(i), IF i = 1 THEN "~" ELSE "i:" \o ToString(i - 1)>>]
Int == Col("INTEGER")
Three(k) ==
    [kind |-> k,
     init |-> [s |-> <<>>, t |-> (".a" :> Table(<<"id", "b">>, ("id" :> Int @@ "b" :> Int), ("PK(id)" :> Key("PK", <<"id">>, "", <<>>))))
                  @@ (".b" :> Table(<<"id", "b">>, ("id" :> Int @@ "b" :> Int), ("PK(id)" :> Key("PK", <<"id">>, "", <<>>) @@ "FK(b)" :> Key("FK", <<"b">>, ".a", <<"id">>))))
                  @@ (".c" :> Table(<<"id", "b">>, ("id" :> Int @@ "b" :> Int), ("PK(id)" :> Key("PK", <<"id">>, "", <<>>) @@ "FK(b)" :> Key("FK", <<"b">>, ".c", <<"id">>))))],
     data |-> (".a" :> Ints(3) @@ ".b" :> Ints(2) @@ ".c" :> Ints(3))]
Lists == {<<>>, <<"a">>, <<"b">>, <<"c">>, <<"c", "a">>, <<"a", "b", "c">>}

VARIABLE c
GInit ==
    \/ \E v \in Values(3), k \in {"dir", "zip", "tgz"} : c = One(v, k) @@ Base
    \/ \E v \in Values(2), w \in Values(1), k \in {"dir", "zip"} : c = Two(v, w, k) @@ Base
    \/ \E k \in {"dir", "zip", "tgz"}, o \in {"", "schema", "data"}, t \in Lists, x \in Lists, f \in 0..14, n \in BOOLEAN :
          /\ \A i \in 1..Len(t), j \in 1..Len(x) : t[i] # x[j]
          /\ (n => f > 0)
          /\ (f > 0 => k = "dir" \/ (t = <<>> /\ x = <<>>))
          \* a table whose foreign key leads to one left out cannot be created and filled
          /\ (t = <<>> \/ \A i \in 1..Len(t) : t[i] = "b" => \E j \in 1..Len(t) : t[j] = "a")
          /\ \A i \in 1..Len(x) : x[i] = "a" => (\E j \in 1..Len(x) : x[j] = "b") \/ (t # <<>> /\ \A j \in 1..Len(t) : t[j] # "b")
          /\ c = [schemaonly |-> (o = "schema"), dataonly |-> (o = "data"), tables |-> t, exclude |-> x, fault |-> f, next |-> n] @@ Three(k) @@ Base
GNext == FALSE /\ c' = c
Write == PrintT("SCENARIO " \o ToJson(c))
=============================================================================
