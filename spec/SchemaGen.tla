------------------------------ MODULE SchemaGen ------------------------------
(* Enumerates every pair of catalogs of the small universe as a scenario.      *)
EXTENDS SchemaSmall, Json

Order(t) == <<"id">> \o (IF "x" \in Cols(t) THEN <<"x">> ELSE <<"r">>) \o (IF "y" \in Cols(t) THEN <<"y">> ELSE <<>>)
Ordered(cat) == [cat EXCEPT !.t = [k \in DOMAIN @ |-> [o |-> Order(@[k])] @@ @[k]]]

Scenario(x) == [id |-> "", d |-> x.d, ver |-> IF x.d = PG THEN "14" ELSE IF x.d = MY THEN "8" ELSE "15", implicit |-> FALSE,
                src |-> Ordered(Real(x.d, x.a)), dest |-> Ordered(x.b), drop |-> x.drop, via |-> "catalog", spell |-> FALSE, prefix |-> "m"]

VARIABLE c
GInit == \E d \in {PG, MY, MS} : \E drop \in BOOLEAN : \E U \in {Singles(d), Doubles(d)} : \E a, b \in U : c = [d |-> d, drop |-> drop, a |-> a, b |-> b]
GNext == FALSE /\ c' = c
Write == PrintT("SCENARIO " \o ToJson(Scenario(c)))
=============================================================================
