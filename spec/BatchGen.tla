------------------------------ MODULE BatchGen ------------------------------
(* Enumerates batch inserts: every stream of up to three rows over two keys,  *)
(* every batch size from none to three, with and without an upsert and an     *)
(* identity column, with the source or the database failing at each point.    *)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC

Pairs == {<<k, v>> : k \in {"1", "2"}, v \in {"a", "b"}}
Streams == UNION {[1..n -> Pairs] : n \in 0..3}
Distinct(rows, size) == \A i, j \in 1..Len(rows) : i < j /\ j - i < size => rows[i][1] # rows[j][1]

VARIABLE c
GInit == \E d \in {"sqlite", "postgres", "mysql", "sqlserver"}, r \in Streams, size \in 0..3, p \in 0..2, keyed \in 0..2, id \in BOOLEAN, f \in 0..2 :
    /\ (id => d \in {"postgres", "sqlserver"})
    /\ (p > 0 => f = 0)
    /\ (keyed = 2 => p # 1) \* the whole row is the key
    /\ (keyed = 1 /\ d \in {"postgres", "sqlserver"} => Distinct(r, IF size = 0 THEN 500 ELSE size))
    /\ (keyed = 2 /\ d \in {"postgres", "sqlserver"} => \A i, j \in 1..Len(r) : i # j => r[i] # r[j])
    /\ c = [d |-> d, r |-> r, size |-> size, p |-> p, keyed |-> keyed, id |-> id, f |-> f]
GNext == FALSE /\ c' = c
Key == CASE c.keyed = 0 -> <<>> [] c.keyed = 1 -> <<"id">> [] c.keyed = 2 -> <<"id", "x">>
Scenario == [id |-> "", d |-> c.d, table |-> "t", all |-> <<"id", "x">>, cols |-> <<"x", "id">>, key |-> Key, keys |-> Key,
             ident |-> IF c.id THEN <<"id">> ELSE <<>>, idents |-> IF c.id THEN <<"id">> ELSE <<>>,
             prior |-> CASE c.p = 0 -> <<>> [] c.p = 1 -> <<<<"1", "z">>>> [] c.p = 2 -> <<<<"2", "a">>>>,
             size |-> c.size, rows |-> <<>> \o [i \in 1..Len(c.r) |-> <<c.r[i][2], c.r[i][1]>>],
             src |-> IF c.f = 2 THEN Len(c.r) ELSE 0, fault |-> IF c.f = 1 THEN (Len(c.r) + 1) \div 2 ELSE 0, tx |-> (c.size = 1)]
Write == PrintT("SCENARIO " \o ToJson(Scenario))
=============================================================================
