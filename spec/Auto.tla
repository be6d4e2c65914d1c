-------------------------------- MODULE Auto --------------------------------
(* A SQLite database that is brought to successive declared schemas.         *)
(*                                                                           *)
(* State: [cat, rows, extra, fk, at, printed]                                *)
(*   cat      the managed part of the database (see Catalog)                 *)
(*   rows     table key -> sequence of rows (column -> value); generated     *)
(*            columns are left out; "NULL" is the absent value               *)
(*   extra    sequence of [kind, name, on, cols, sql]: objects the tool does *)
(*            not manage (views, triggers, virtual tables, the history table)*)
(*   fk       foreign keys are enforced on the tool's connection             *)
(*   at       <<>> or <<[decl, drop]>>: what the last successful run was     *)
(*            asked for                                                      *)
(*   printed  <<>> or <<[decl, drop, text]>>: what a dry run printed since   *)
(*            the database last changed                                      *)
(*                                                                           *)
(* Events:                                                                   *)
(*   init  cat rows extra fk                                                 *)
(*   auto  decl drop dry: what was asked; err panic chg (number of changing  *)
(*         statements sent) printed sent: what happened; cat rows extra: the *)
(*         database afterwards                                               *)
EXTENDS Catalog

None == <<>>

-----------------------------------------------------------------------------
(* Rows. *)

Rows(rows, key) == IF key \in DOMAIN rows THEN rows[key] ELSE <<>>

Project(row, C) == [c \in C |-> row[c]]

Plain(t) == {c \in Cols(t) : t.c[c].gen = ""}

(* Columns of a table whose values a change of schema has to preserve. *)
Kept(before, after, key) == Plain(before.t[key]) \cap Plain(after.t[key])

Count(s, r) == Cardinality({i \in DOMAIN s : s[i] = r})

SameBag(s1, s2) ==
    /\ Len(s1) = Len(s2)
    /\ \A i \in DOMAIN s1 : Count(s1, s1[i]) = Count(s2, s1[i])

(* An INTEGER primary key cannot be absent: SQLite numbers such rows. *)
Numbered(S, ev, key) ==
    LET new == ev.cat.t[key] rows == Rows(S.rows, key) IN
    {c \in Cols(S.cat.t[key]) \cap Cols(new) :
        /\ new.c[c].b = "INTEGER"
        /\ \E n \in Cons(new) : new.k[n].k = "PK" /\ new.k[n].cols = <<c>>
        /\ \E i \in DOMAIN rows : rows[i][c] = "NULL"}

RowsKept(S, ev, key) ==
    LET C == Kept(S.cat, ev.cat, key) \ Numbered(S, ev, key)
        P(s) == [i \in DOMAIN s |-> Project(s[i], C)]
    IN C = {} \/ SameBag(P(Rows(S.rows, key)), P(Rows(ev.rows, key)))

(* Two rows that agree on C (absent values never agree). *)
Duplicates(rows, C) ==
    \E i, j \in DOMAIN rows : i < j /\ \A c \in C : rows[i][c] = rows[j][c] /\ rows[i][c] # "NULL"

-----------------------------------------------------------------------------
(* What the tool may not change. *)

(* An unmanaged object is as it was. *)
Survives(e, extra) == \E i \in DOMAIN extra : extra[i].kind = e.kind /\ extra[i].name = e.name /\ extra[i].sql = e.sql

(* Triggers go with their table.  What becomes of a view whose column is     *)
(* dropped is up to SQLite (it may turn the name into a string).             *)
ExtraKept(S, ev) ==
    \A i \in DOMAIN S.extra : LET e == S.extra[i] IN
        \/ Survives(e, ev.extra)
        \/ e.kind = "trigger" /\ e.on \notin Tables(ev.cat)
        \/ e.kind = "view" /\ e.on \in Tables(ev.cat) /\ ~(Range(e.cols) \subseteq Cols(ev.cat.t[e.on]))

Unchanged(S, ev) == ev.cat = S.cat /\ ev.rows = S.rows /\ ev.extra = S.extra

-----------------------------------------------------------------------------
(* The declared schema has been reached. *)

ColumnReached(want, have) ==
    /\ want.b = have.b /\ want.a = have.a
    /\ want.nn = have.nn /\ want.def = have.def /\ (want.gen = "") = (have.gen = "")

TableReached(want, have) ==
    (IF Cols(want) # Cols(have) THEN {"columns"} ELSE
        (IF \E c \in Cols(want) : ~ColumnReached(want.c[c], have.c[c]) THEN {"column definitions"} ELSE {}))
    \cup (IF Cons(want) # Cons(have) THEN {"constraints"} ELSE {})
    \cup (IF Idxs(want) # Idxs(have) THEN {"indexes"} ELSE {})

(* Constraints and indexes are identified by what they are on; those that    *)
(* are created have all of their declared attributes.                        *)
Created(S, ev, key) ==
    LET want == ev.decl.t[key] have == ev.cat.t[key]
        old == IF key \in Tables(S.cat) THEN S.cat.t[key] ELSE [k |-> EmptyFn, i |-> EmptyFn]
    IN /\ \A n \in Cons(want) \cap Cons(have) : n \notin DOMAIN old.k => want.k[n] = have.k[n]
       /\ \A n \in Idxs(want) \cap Idxs(have) : n \notin DOMAIN old.i => want.i[n] = have.i[n]

Reached(S, ev) ==
    (IF Tables(ev.decl) # Tables(ev.cat) THEN {"tables"} ELSE {})
    \cup UNION {TableReached(ev.decl.t[k], ev.cat.t[k]) : k \in Tables(ev.decl) \cap Tables(ev.cat)}
    \cup (IF \E k \in Tables(ev.decl) \cap Tables(ev.cat) : ~Created(S, ev, k) THEN {"created constraint or index"} ELSE {})

(* Without permission to drop: what was missing has been added... *)
Added(S, ev) ==
    (IF ~(Tables(ev.decl) \subseteq Tables(ev.cat)) THEN {"missing table"} ELSE {})
    \cup UNION {LET want == ev.decl.t[k] have == ev.cat.t[k] new == k \notin Tables(S.cat) IN
            (IF ~(Cols(want) \subseteq Cols(have)) THEN {"missing column"} ELSE
              (IF \E c \in Cols(want) : (new \/ c \notin Cols(S.cat.t[k])) /\ ~ColumnReached(want.c[c], have.c[c])
               THEN {"column definitions"} ELSE {}))
            \cup (IF ~(Idxs(want) \subseteq Idxs(have)) THEN {"missing index"} ELSE {})
            \cup (IF new /\ Cons(want) # Cons(have) THEN {"constraints"} ELSE {})
        : k \in Tables(ev.decl) \cap Tables(ev.cat)}
    \cup (IF \E k \in Tables(ev.decl) \cap Tables(ev.cat) : ~Created(S, ev, k) THEN {"created constraint or index"} ELSE {})

(* ... and nothing that was there has gone or changed. *)
Removed(S, ev) ==
    (IF ~(Tables(S.cat) \subseteq Tables(ev.cat)) THEN {"table"} ELSE {})
    \cup UNION {LET old == S.cat.t[k] have == ev.cat.t[k] IN
            (IF ~(Cols(old) \subseteq Cols(have)) THEN {"column"} ELSE
              (IF \E c \in Cols(old) : old.c[c] # have.c[c] THEN {"column definition"} ELSE {}))
            \cup (IF ~(Cons(old) \subseteq Cons(have)) THEN {"constraint"} ELSE
              (IF \E n \in Cons(old) : old.k[n] # have.k[n] THEN {"constraint definition"} ELSE {}))
            \cup (IF ~(Idxs(old) \subseteq Idxs(have)) THEN {"index"} ELSE
              (IF \E n \in Idxs(old) : old.i[n] # have.i[n] THEN {"index definition"} ELSE {}))
        : k \in Tables(S.cat) \cap Tables(ev.cat)}

-----------------------------------------------------------------------------
(* When the database itself refuses the change. *)

NewCols(S, ev, key) == Cols(ev.decl.t[key]) \ Cols(S.cat.t[key])

Refused(S, ev, key) ==
    LET old == S.cat.t[key]
        new == ev.decl.t[key]
        rows == Rows(S.rows, key)
        fresh == NewCols(S, ev, key)
        lone(n) == Len(new.k[n].cols) = 1 /\ new.k[n].cols[1] \in fresh
    IN \* a new column that existing rows have no value for
       \/ \E c \in fresh : new.c[c].nn /\ new.c[c].def = ""
       \* forms of ADD COLUMN that SQLite does not have
       \/ \E c \in fresh : new.c[c].gen # "" \/ new.c[c].def = "CURRENT_TIMESTAMP"
       \/ ~ev.drop /\ \E n \in Of(new, "PK") \cup Of(new, "UQ") : lone(n)
       \* existing rows contradict the new schema
       \/ \E c \in Plain(old) \cap Plain(new) :
             new.c[c].nn /\ ~old.c[c].nn /\ \E i \in DOMAIN rows : rows[i][c] = "NULL"
       \/ \E U \in UniqueSets(new) \ UniqueSets(old) :
             IF U \cap fresh = {} /\ U \subseteq Plain(old) THEN Duplicates(rows, U) ELSE Len(rows) > 1
       \/ rows # <<>> /\ \E n \in Of(new, "PK") :
             /\ Len(new.k[n].cols) = 1
             /\ new.c[new.k[n].cols[1]].b = "INTEGER"
             /\ ~(n \in Cons(old) /\ old.c[new.k[n].cols[1]].b = "INTEGER")
       \* enforced foreign keys
       \/ S.fk /\ (Incoming(S.cat, key) # {} \/ Of(old, "FK") # {} \/ Of(new, "FK") # {})

MayFail(S, ev) ==
    \/ \E key \in Tables(S.cat) \cap Tables(ev.decl) : Refused(S, ev, key)
    \/ S.fk /\ \E key \in Tables(S.cat) \ Tables(ev.decl) : Incoming(S.cat, key) # {}
    \* views and triggers that no longer make sense
    \/ \E i \in DOMAIN S.extra : LET e == S.extra[i] IN
          /\ e.kind \in {"view", "trigger"} /\ e.on # ""
          /\ \/ e.kind = "view" /\ e.on \notin Tables(ev.decl)
             \/ e.on \in Tables(ev.decl) /\ ~(Range(e.cols) \subseteq Cols(ev.decl.t[e.on]))
             \* or that already did not
             \/ e.on \notin Tables(S.cat)
             \/ e.on \in Tables(S.cat) /\ ~(Range(e.cols) \subseteq Cols(S.cat.t[e.on]))

-----------------------------------------------------------------------------
If(cond, prop, clause) == IF cond THEN {<<prop, clause>>} ELSE {}

Was(S, ev) == S.at # None /\ S.at[1].decl = ev.decl /\ S.at[1].drop = ev.drop

(* With enforced foreign keys SQLite runs the referential actions of the     *)
(* tables that refer to a table when that table is dropped - also when it is *)
(* dropped only to be replaced by its copy.  Told apart from other losses:   *)
(* rows went or lost their foreign key value, nothing else changed.          *)
Acts(k) == k.k = "FK" /\ k.del \in {"CASCADE", "SET NULL", "SET DEFAULT"}
ActsOf(cat, key) == {n \in Cons(cat.t[key]) : Acts(cat.t[key].k[n])}
ActedOn(S, ev, key) == S.fk /\ (ActsOf(S.cat, key) # {} \/ ActsOf(ev.cat, key) # {})
Exposed(S, ev, key) == UNION ({Range(S.cat.t[key].k[n].cols) : n \in ActsOf(S.cat, key)}
                              \cup {Range(ev.cat.t[key].k[n].cols) : n \in ActsOf(ev.cat, key)})
OnlyActedOn(S, ev, key) ==
    LET C == Kept(S.cat, ev.cat, key) \ Exposed(S, ev, key)
        was == Rows(S.rows, key) is == Rows(ev.rows, key)
    IN /\ ActedOn(S, ev, key) /\ ev.err = ""
       /\ \A i \in DOMAIN is : Cardinality({j \in DOMAIN is : Project(is[j], C) = Project(is[i], C)})
                               <= Cardinality({j \in DOMAIN was : Project(was[j], C) = Project(is[i], C)})

RowsBroken(S, ev) ==
    UNION {IF RowsKept(S, ev, k) THEN {}
           ELSE IF OnlyActedOn(S, ev, k)
           THEN {<<"C11", "referential action ran while a referenced table was replaced or dropped">>}
           ELSE {<<"C11", "rows of a kept table lost or changed">>} : k \in Tables(S.cat) \cap Tables(ev.cat)}
    \cup If(\E k \in Tables(ev.cat) \ Tables(S.cat) : Rows(ev.rows, k) # <<>>, "C11", "rows appeared in a new table")
    \cup If(\E k \in Tables(S.cat) \ Tables(ev.cat) : k \in Tables(ev.decl) \/ ~ev.drop, "C11", "table lost")

Broken(S, ev) ==
    IF ev.e = "init" THEN {}
    ELSE
        If(ev.panic # "", "C09", "crashed")
        \cup (IF ev.dry
              THEN If(~Unchanged(S, ev) \/ ev.chg > 0, "C12", "dry run changed the database")
                   \cup If(ev.err # "" /\ ev.panic = "", "C12", "dry run failed")
                   \cup If(Was(S, ev) /\ ev.printed # "", "C09", "settled schema still prints changes")
              ELSE IF ev.err # ""
              THEN If(~Unchanged(S, ev), "C09", "failed and left changes behind")
                   \cup RowsBroken(S, ev)
                   \cup If(~MayFail(S, ev), "C09", "failed although the database allows the change")
                   \cup If(Was(S, ev), "C09", "failed on the schema it has reached")
              ELSE (IF ev.drop THEN {<<"C09", "not reached: " \o x>> : x \in Reached(S, ev)}
                    ELSE {<<"C09", "not added: " \o x>> : x \in Added(S, ev)}
                         \cup {<<"C11", "removed without permission: " \o x>> : x \in Removed(S, ev)})
                   \cup RowsBroken(S, ev)
                   \cup If(~ExtraKept(S, ev), "C09", "unmanaged object lost")
                   \cup If(\E k \in Tables(S.cat) \cap Tables(ev.cat) : k \notin Tables(ev.decl) /\ S.cat.t[k] # ev.cat.t[k], "C11", "undeclared table changed")
                   \cup If(Was(S, ev) /\ (ev.chg > 0 \/ ~Unchanged(S, ev)), "C09", "second run changes something")
                   \cup If(S.printed # None /\ S.printed[1].decl = ev.decl /\ S.printed[1].drop = ev.drop /\ S.printed[1].text # ev.sent,
                           "C12", "dry run printed something else"))

Init0(ev) == [cat |-> ev.cat, rows |-> ev.rows, extra |-> ev.extra, fk |-> ev.fk, at |-> None, printed |-> None]

Step(S, ev) ==
    IF ev.e = "init" THEN Init0(ev)
    ELSE LET new == [S EXCEPT !.cat = ev.cat, !.rows = ev.rows, !.extra = ev.extra]
         IN IF ev.dry THEN [new EXCEPT !.printed = <<[decl |-> ev.decl, drop |-> ev.drop, text |-> ev.printed]>>]
            ELSE IF ev.err # "" THEN [new EXCEPT !.at = None, !.printed = None]
            ELSE [new EXCEPT !.at = <<[decl |-> ev.decl, drop |-> ev.drop]>>, !.printed = None]
=============================================================================
