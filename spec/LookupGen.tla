----------------------------- MODULE LookupGen ------------------------------
(* Every sequence of operations of a length on a table, its columns and its  *)
(* constraints, on a view and on the schema they are in.                     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Depth

Obj(kind, p, n, ct, ig) == [kind |-> kind, s |-> "s", p |-> p, n |-> n, a |-> "", ct |-> ct, ig |-> ig, mark |-> ""]
Op(op, obj, inner) == [op |-> op, obj |-> obj, inner |-> inner]
T(ig) == Obj("table", "t", "", "", ig)
C(c, ig) == Obj("column", "t", c, "", ig)
K(k, ct, ig) == Obj("constraint", "t", k, ct, ig)
Pk == "PRIMARY KEY"
Fk == "FOREIGN KEY"
Ops == {
    Op("create", T(FALSE), <<>>),
    Op("update", T(FALSE), <<C("c", FALSE)>>),
    Op("update", T(FALSE), <<C("d", FALSE), C("c", FALSE), K("k", Pk, FALSE), K("", Fk, FALSE)>>),
    Op("update", T(TRUE), <<C("c", FALSE)>>),
    Op("ignore", T(FALSE), <<>>),
    Op("create", C("c", FALSE), <<>>),
    Op("update", C("d", FALSE), <<>>),
    Op("update", C("c", TRUE), <<>>),
    Op("ignore", C("c", FALSE), <<>>),
    Op("create", K("k", Pk, FALSE), <<>>),
    Op("update", K("k", Fk, FALSE), <<>>),
    Op("update", K("l", Pk, TRUE), <<>>),
    Op("update", K("", Fk, FALSE), <<>>),
    Op("update", Obj("schema", "", "", "", FALSE), <<T(FALSE), C("d", FALSE), K("k", Fk, FALSE)>>),
    Op("ignore", Obj("schema", "", "", "", FALSE), <<>>),
    Op("update", Obj("view", "m", "", "", FALSE), <<Obj("vindex", "m", "i", "", FALSE)>>),
    Op("create", Obj("vindex", "m", "j", "", FALSE), <<>>),
    Op("ignore", Obj("view", "m", "", "", FALSE), <<>>),
    Op("reopen", T(FALSE), <<>>),
    Op("copy", T(FALSE), <<>>)}

Digit == <<"a", "b", "c", "d", "e">>
Marked(op, i) == [op EXCEPT !.obj.mark = Digit[i], !.inner = <<>> \o [j \in DOMAIN op.inner |-> [op.inner[j] EXCEPT !.mark = Digit[i] \o Digit[j]]]]
VARIABLE g
GInit == g = <<>>
GNext == Len(g) < Depth /\ \E op \in Ops : g' = Append(g, Marked(op, Len(g) + 1))
Write == IF Len(g) = Depth THEN PrintT("SCENARIO " \o ToJson([id |-> "", dialect |-> "sqlite", fill |-> FALSE, ops |-> g])) ELSE TRUE
=============================================================================
