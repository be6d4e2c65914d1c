------------------------------ MODULE LookupMC ------------------------------
(* Tables and their columns kept in sequences, with the positions of the      *)
(* named ones on the side, against the map of Lookup: what is found by its     *)
(* position is what was stored, for every sequence of operations. Without      *)
(* Forget the positions inside of a replaced table stay, and this fails.       *)
EXTENDS Lookup, TLC

CONSTANTS Depth, Cols, Forget

Tables == {"t", "u"}
VARIABLES seq,    \* tables: [n, mark, ig, cols], columns: [n, mark, ig]
          at,     \* positions of tables
          cat,    \* positions of columns
          S, n, ev
vars == <<seq, at, cat, S, n, ev>>
View == <<seq, at, cat, S, n>>

None == [e |-> "none", obj |-> [kind |-> "table", s |-> "", p |-> "t", n |-> "", a |-> "", ct |-> "", ig |-> FALSE, mark |-> ""], inner |-> <<>>, dialect |-> "sqlite"]
Init ==
    /\ seq = <<>> /\ at = <<>> /\ cat = <<>>
    /\ S = Put(Start, {[k |-> SchemaAt(""), mark |-> "", ct |-> ""]}) /\ n = 0 /\ ev = None

Mark == CASE n = 0 -> "a" [] n = 1 -> "b" [] n = 2 -> "c" [] n = 3 -> "d" [] n = 4 -> "e" [] OTHER -> "f"
O(kind, t, c, ig, mark) == [kind |-> kind, s |-> "", p |-> t, n |-> c, a |-> "", ct |-> "", ig |-> ig, mark |-> mark]
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, X) == [y \in DOMAIN f \ X |-> f[y]]

(* The position by which a table or column is found, 0 if it is not. *)
TAt(q, a, t) == IF t \in DOMAIN a THEN IF q[a[t]].ig THEN 0 ELSE a[t] ELSE 0
CAt(q, ca, i, c) ==
    LET k == <<q[i].n, c>> IN
    IF k \notin DOMAIN ca THEN 0 ELSE IF ca[k] > Len(q[i].cols) THEN 99 ELSE IF q[i].cols[ca[k]].ig THEN 0 ELSE ca[k]
(* Positions of the columns of table t are forgotten, and those of cs known. *)
Drop(ca, t) == IF Forget THEN Without(ca, {<<t, c>> : c \in Cols}) ELSE ca
Know(ca, t, cs) == IF Forget THEN [k \in DOMAIN Drop(ca, t) \cup {<<t, cs[j].n>> : j \in DOMAIN cs} |->
    IF k[1] = t /\ \E j \in DOMAIN cs : cs[j].n = k[2] THEN CHOOSE j \in DOMAIN cs : cs[j].n = k[2] /\ \A l \in DOMAIN cs : cs[l].n = k[2] => l <= j ELSE ca[k]] ELSE ca

(* A table that is found or made: [seq, at, cat, i]. *)
Made(q, a, ca, t, mark) ==
    LET i == TAt(q, a, t) IN
    IF i > 0 THEN [q |-> q, a |-> a, ca |-> ca, i |-> i]
    ELSE [q |-> Append(q, [n |-> t, mark |-> mark, ig |-> FALSE, cols |-> <<>>]), a |-> With(a, t, Len(q) + 1), ca |-> Drop(ca, t), i |-> Len(q) + 1]

Do(e) == /\ n < Depth /\ n' = n + 1 /\ ev' = e /\ S' = Step(S, e)
Ev(e, obj, inner) == [e |-> e, obj |-> obj, inner |-> inner, dialect |-> "sqlite"]

CreateTable(t) ==
    /\ Do(Ev("create", O("table", t, "", FALSE, Mark), <<>>))
    /\ LET m == Made(seq, at, cat, t, "") IN
       /\ seq' = [m.q EXCEPT ![m.i].mark = Mark] /\ at' = m.a /\ cat' = m.ca

Inners == {<<>>} \cup {<<c>> : c \in Cols} \cup {<<c, d>> : c \in Cols, d \in Cols}
UpdateTable(t, ig, cs, gs) ==
    LET inner == [j \in DOMAIN cs |-> O("column", t, cs[j], gs[j], Mark \o cs[j])]
        new == [n |-> t, mark |-> Mark, ig |-> ig, cols |-> [j \in DOMAIN cs |-> [n |-> cs[j], mark |-> Mark \o cs[j], ig |-> gs[j]]]]
        i == TAt(seq, at, t)
    IN  /\ \A j, l \in DOMAIN cs : cs[j] = cs[l] => j = l
        /\ Do(Ev("update", O("table", t, "", ig, Mark), inner))
        /\ seq' = IF i > 0 THEN [seq EXCEPT ![i] = new] ELSE Append(seq, new)
        /\ at' = IF i > 0 THEN at ELSE With(at, t, Len(seq) + 1)
        /\ cat' = Know(cat, t, new.cols)
PutColumn(e, t, c, ig) ==
    LET m == Made(seq, at, cat, t, "")
        j == CAt(m.q, m.ca, m.i, c)
        new == [n |-> c, mark |-> Mark, ig |-> ig]
    IN  /\ Do(Ev(e, O("column", t, c, ig, Mark), <<>>))
        /\ at' = m.a
        /\ seq' = IF j = 99 THEN m.q ELSE IF j > 0 THEN [m.q EXCEPT ![m.i].cols[j] = new] ELSE [m.q EXCEPT ![m.i].cols = Append(@, new)]
        /\ cat' = IF j > 0 THEN m.ca ELSE With(m.ca, <<t, c>>, Len(m.q[m.i].cols) + 1)
Ignore(t) ==
    LET i == TAt(seq, at, t) IN
    /\ Do(Ev("ignore", O("table", t, "", FALSE, ""), <<>>))
    /\ seq' = IF i > 0 THEN [seq EXCEPT ![i].ig = TRUE] ELSE seq
    /\ UNCHANGED <<at, cat>>
IgnoreColumn(t, c) ==
    LET i == TAt(seq, at, t)
        j == IF i > 0 THEN CAt(seq, cat, i, c) ELSE 0
    IN  /\ Do(Ev("ignore", O("column", t, c, FALSE, ""), <<>>))
        /\ seq' = IF j \in 1..98 THEN [seq EXCEPT ![i].cols[j].ig = TRUE] ELSE seq
        /\ UNCHANGED <<at, cat>>
Next ==
    \/ \E t \in Tables : CreateTable(t) \/ Ignore(t)
    \/ \E t \in Tables, ig \in BOOLEAN, cs \in Inners : \E gs \in [DOMAIN cs -> BOOLEAN] : UpdateTable(t, ig, cs, gs)
    \/ \E t \in Tables, c \in Cols : PutColumn("create", t, c, FALSE) \/ IgnoreColumn(t, c) \/ \E ig \in BOOLEAN : PutColumn("update", t, c, ig)
Spec == Init /\ [][Next]_vars

Held == {[k |-> TableAt("", seq[i].n), mark |-> seq[i].mark, ct |-> ""] : i \in {i \in DOMAIN seq : ~seq[i].ig}}
    \cup UNION {{[k |-> At(O("column", seq[i].n, c.n, FALSE, ""), ""), mark |-> c.mark, ct |-> ""] : c \in {c \in Bag(seq[i].cols) : ~c.ig}} : i \in {i \in DOMAIN seq : ~seq[i].ig}}
Holds == Held = {o \in S.vis : o.k.kind # "schema"}
Finds ==
    \A t \in Tables :
        LET i == TAt(seq, at, t)
            f == Found(S, TableAt("", t))
        IN  /\ (i > 0) = (f # {})
            /\ i > 0 => seq[i].mark = (CHOOSE o \in f : TRUE).mark
            /\ i > 0 => \A c \in Cols :
                   LET j == CAt(seq, cat, i, c)
                       g == Found(S, At(O("column", t, c, FALSE, ""), ""))
                   IN  /\ j # 99 /\ (j > 0) = (g # {})
                       /\ j > 0 => seq[i].cols[j].mark = (CHOOSE o \in g : TRUE).mark
(* Each place has one object at most, and only inside of what is there. *)
Map == \A o \in S.vis : Cardinality(Found(S, o.k)) = 1 /\ \A q \in Above(o.k) : Found(S, q) # {}
=============================================================================
