----------------------------- MODULE RestoreGen ------------------------------
(* Enumerates every database of the small universe as a scenario, with the     *)
(* tables and schemas listed in four shuffled orders.                          *)
EXTENDS RestoreSmall, Json

Order(t) == <<"id">> \o (IF "x" \in Cols(t) THEN <<"x">> ELSE <<"r">>) \o (IF "y" \in Cols(t) THEN <<"y">> ELSE <<>>)
Ordered(cat) == [cat EXCEPT !.t = [k \in DOMAIN @ |-> [o |-> Order(@[k])] @@ @[k]]]

Scenario(x) == [id |-> "", d |-> x.d, ver |-> IF x.d = PG THEN "14" ELSE IF x.d = MY THEN "8" ELSE "15", cat |-> Ordered(Real(x.d, x.cat)), shuf |-> x.shuf,
                enums |-> EmptyFn, domains |-> EmptyFn, exts |-> <<>>]

VARIABLE c
GInit == \E d \in {PG, MY, MS} : \E shuf \in 1..4 : \E cat \in Databases(d) : c = [d |-> d, shuf |-> shuf, cat |-> cat]
GNext == FALSE /\ c' = c
Write == PrintT("SCENARIO " \o ToJson(Scenario(c)))
=============================================================================
