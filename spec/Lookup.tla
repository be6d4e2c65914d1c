------------------------------- MODULE Lookup -------------------------------
(* A catalog as a map from places to objects. A place is a record of kind,    *)
(* schema s, name p (of the object itself, or of the table or view it belongs *)
(* to), name n within that table or view, and arguments a of a routine.       *)
(* Objects that are marked as ignored stay in the catalog, but are not found, *)
(* nor is what is inside them, and other objects may take their place.        *)
(* Constraints without a name are kept, but cannot be looked up.              *)
EXTENDS Naturals, Sequences, FiniteSets

(* Ignored objects are kept with the places they are inside of as these are   *)
(* found now: replacing one of these removes them.                            *)
Start == [vis |-> {}, hid |-> {}]

Members == {"column", "constraint", "index", "trigger"}
ViewMembers == {"vindex", "vtrigger"}
SchemaAt(s) == [kind |-> "schema", s |-> s, p |-> "", n |-> "", a |-> ""]
TableAt(s, p) == [kind |-> "table", s |-> s, p |-> p, n |-> "", a |-> ""]
ViewAt(s, p) == [kind |-> "view", s |-> s, p |-> p, n |-> "", a |-> ""]

(* Only Postgres tells routines of one name apart by their arguments. *)
At(o, dialect) == [kind |-> o.kind, s |-> o.s, p |-> o.p, n |-> o.n, a |-> IF dialect = "postgres" THEN o.a ELSE ""]
(* The places a place is inside of. *)
Above(k) ==
    CASE k.kind = "schema" -> {}
      [] k.kind \in Members -> {SchemaAt(k.s), TableAt(k.s, k.p)}
      [] k.kind \in ViewMembers -> {SchemaAt(k.s), ViewAt(k.s, k.p)}
      [] OTHER -> {SchemaAt(k.s)}

Obj(o, dialect) == [k |-> At(o, dialect), mark |-> o.mark, ct |-> o.ct]
Unnamed(k) == k.kind = "constraint" /\ k.n = ""
Found(S, k) == {o \in S.vis : o.k = k}
(* The visible object at a place and everything inside. *)
Whole(S, k) == {o \in S.vis : o.k = k \/ k \in Above(o.k)}
Put(S, objs) == [S EXCEPT !.vis = @ \cup objs]

Away(o, places) == [o |-> o, in |-> Above(o.k) \cap places]

(* Parents that are missing are created. *)
Ensured(S, k) == Put(S, {[k |-> q, mark |-> "", ct |-> ""] : q \in {q \in Above(k) : Found(S, q) = {}}})

Step(S, ev) ==
    LET k == At(ev.obj, ev.dialect)
        new == Obj(ev.obj, ev.dialect)
    IN  CASE ev.e = "create" ->
               LET T == Ensured(S, k)
                   old == Found(T, k)
               IN  IF old = {} THEN Put(T, {new})
                   ELSE [T EXCEPT !.vis = (@ \ old) \cup {[o EXCEPT !.mark = ev.obj.mark] : o \in old}]
          [] ev.e = "update" ->
               LET T == Ensured(S, k)
                   U == IF Unnamed(k) THEN T ELSE [T EXCEPT !.vis = @ \ Whole(T, k)]
                   all == {ev.obj} \cup {ev.inner[i] : i \in DOMAIN ev.inner}
                   away == {o \in all : o.ig \/ \E q \in all : q.ig /\ At(q, ev.dialect) \in Above(At(o, ev.dialect))}
                   kept == {Obj(o, ev.dialect) : o \in all \ away}
                   places == {o.k : o \in U.vis \cup kept}
               IN  [vis |-> U.vis \cup kept,
                    hid |-> {h \in U.hid : k \notin h.in} \cup {Away(Obj(o, ev.dialect), places) : o \in away}]
          [] ev.e = "ignore" /\ Found(S, k) # {} ->
               LET places == {o.k : o \in S.vis \ Whole(S, k)}
               IN  [vis |-> S.vis \ Whole(S, k),
                    hid |-> {[h EXCEPT !.in = @ \cap places] : h \in S.hid} \cup {Away(o, places) : o \in Whole(S, k)}]
          [] OTHER -> S

(* What is found before an operation. *)
Got(S, ev) == Found(IF ev.e = "create" THEN Ensured(S, At(ev.obj, ev.dialect)) ELSE S, At(ev.obj, ev.dialect))
Bag(x) == {x[i] : i \in DOMAIN x}
Of(T, type) == {o \in T.vis : o.k.kind = "constraint" /\ o.ct = type}

Broken(S, ev) ==
    LET T == Step(S, ev)
        got == Got(S, ev)
        vis == {Obj(o, ev.dialect) : o \in Bag(ev.visible)}
        hid == {Obj(o, ev.dialect) : o \in Bag(ev.hidden)}
        seen == {[k |-> At(o, ev.dialect), mark |-> o.mark] : o \in Bag(ev.seen)}
        pks == Bag(ev.pks)
    IN  IF ev.crashed THEN {<<"C19", "an operation crashes">>}
        ELSE IF ~ev.equal THEN {<<"C19", "a copy differs from its original">>}
        ELSE IF ~ev.kept THEN {<<"C19", "a copy shares parts with its original">>}
        ELSE (IF ev.e \in {"get", "ignore"} /\ ev.found # (got # {}) THEN {<<"C19", "an object is found that is not there, or the other way round">>} ELSE {})
             \cup (IF ev.found /\ ev.got # (IF got = {} THEN "" ELSE (CHOOSE o \in got : TRUE).mark) THEN {<<"C19", "another object is returned">>} ELSE {})
             \cup (IF vis # T.vis \/ Len(ev.visible) # Cardinality(T.vis) THEN {<<"C19", "the catalog holds other objects than were stored">>} ELSE {})
             \cup (IF hid # {h.o : h \in T.hid} THEN {<<"C19", "an ignored object is lost">>} ELSE {})
             \cup (IF seen # {[k |-> o.k, mark |-> o.mark] : o \in {o \in T.vis : ~Unnamed(o.k)}} THEN {<<"C19", "a lookup does not return the object stored">>} ELSE {})
             \cup (IF \E o \in Of(T, "PRIMARY KEY") : ~\E x \in pks : x.s = o.k.s /\ x.p = o.k.p THEN {<<"C19", "a primary key is not found">>} ELSE {})
             \cup (IF \E x \in pks : ~\E o \in Of(T, "PRIMARY KEY") : x.s = o.k.s /\ x.p = o.k.p /\ x.mark = o.mark THEN {<<"C19", "a primary key is found that is not there">>} ELSE {})
             \cup (IF Bag(ev.fks) # {[s |-> o.k.s, p |-> o.k.p, mark |-> o.mark] : o \in Of(T, "FOREIGN KEY")} \/ Len(ev.fks) # Cardinality(Of(T, "FOREIGN KEY"))
                   THEN {<<"C19", "the foreign keys found are not those of the table">>} ELSE {})
             \cup (IF ev.strangers THEN {<<"C19", "an object names another parent than it is in">>} ELSE {})
=============================================================================
