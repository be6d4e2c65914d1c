-------------------------------- MODULE Dump --------------------------------
(* A database that is dumped and loaded into another one.                     *)
(*                                                                            *)
(* State: [cat, rows, opts] of the source, and whether the dump succeeded.    *)
(*   cat   the tables (see Catalog)                                           *)
(*   rows  table key -> sequence of rows (column -> value); generated columns *)
(*         are left out. Values carry their class: i:1 r:1.5 t:text x:00 and  *)
(*         ~ for NULL; d: is the moment a value of a timestamp column stands  *)
(*         for                                                                *)
(*   opts  [schemaonly, dataonly, tables, exclude, null]                      *)
(*                                                                            *)
(* Events: init (the source), dump (err fault data schema), load (err) and    *)
(* final (the database loaded into, which was empty or, for a dump of data    *)
(* only, had the tables of the source).                                       *)
EXTENDS Catalog

None == [e |-> "none"]

Name(key) == SubSeq(key, 2, Len(key))
Selected(S) ==
    {k \in Tables(S.cat) : /\ (S.opts.tables = <<>> \/ Name(k) \in Range(S.opts.tables))
                           /\ Name(k) \notin Range(S.opts.exclude)}

(* The database that loading the dump must lead to. *)
ExpectedTables(S) == IF S.opts.dataonly /\ ~S.opts.schemaonly THEN Tables(S.cat) ELSE Selected(S)
ExpectedRows(S, k) == IF S.opts.schemaonly \/ k \notin Selected(S) THEN <<>> ELSE S.rows[k]

Count(s, r) == Cardinality({i \in DOMAIN s : s[i] = r})
SameBag(s1, s2) == Len(s1) = Len(s2) /\ \A i \in DOMAIN s1 : Count(s1, s1[i]) = Count(s2, s1[i])

(* Two losses that are known: a carriage return before a newline, and text    *)
(* that is no timestamp in a timestamp column.                                *)
Cr == "\\r\\n"
HasCr(v) == \E i \in 1..Len(v) : i + 3 <= Len(v) /\ SubSeq(v, i, i + 3) = Cr
RECURSIVE NoCr(_)
NoCr(v) == IF Len(v) < 4 THEN v ELSE IF SubSeq(v, 1, 4) = Cr THEN NoCr(SubSeq(v, 3, Len(v))) ELSE SubSeq(v, 1, 1) \o NoCr(SubSeq(v, 2, Len(v)))
Stamp(t, c) == t.c[c].b \in {"DATETIME", "TIMESTAMP", "DATE"}
Zero == "d:0001-01-01T00:00:00Z"
See(t, c, v) == IF Stamp(t, c) THEN IF Len(v) > 1 /\ SubSeq(v, 1, 1) = "t" THEN Zero ELSE v ELSE IF HasCr(v) THEN NoCr(v) ELSE v
Seen(t, rows) == [i \in DOMAIN rows |-> [c \in DOMAIN rows[i] |-> See(t, c, rows[i][c])]]
Why(t, rows) ==
    IF \E i \in DOMAIN rows : \E c \in DOMAIN rows[i] : Stamp(t, c) /\ See(t, c, rows[i][c]) # rows[i][c]
    THEN "text in a timestamp column that is no timestamp" ELSE "carriage return before a newline"

Step(S, ev) ==
    CASE ev.e = "init" -> [e |-> "s", cat |-> ev.cat, rows |-> ev.rows, opts |-> ev.opts]
      [] OTHER -> S

(* What is wrong with a table of the loaded database. *)
Differs(S, ev, k) ==
    LET a == S.cat.t[k] b == ev.cat.t[k]
    IN  (IF a.o # b.o \/ a.c # b.c THEN {<<"C14", "columns differ">>} ELSE {})
        \cup (IF Of(a, "PK") # Of(b, "PK") \/ Of(a, "UQ") # Of(b, "UQ") THEN {<<"C14", "keys differ">>} ELSE {})
        \cup (IF \E n \in Of(a, "FK") \cup Of(b, "FK") : n \notin DOMAIN a.k \/ n \notin DOMAIN b.k \/ a.k[n] # b.k[n] THEN {<<"C14", "foreign keys differ">>} ELSE {})
        \cup (IF a.i # b.i THEN {<<"C14", "indexes differ">>} ELSE {})
        \cup (LET want == ExpectedRows(S, k)
              IN  IF SameBag(want, ev.rows[k]) THEN {}
                  ELSE IF want = <<>> THEN {<<"C14", "rows that are not part of the dump">>}
                  ELSE IF Len(want) # Len(ev.rows[k]) THEN {<<"C14", "number of rows differs">>}
                  ELSE IF SameBag(Seen(a, want), ev.rows[k]) THEN {<<"C14", "values differ: " \o Why(a, want)>>}
                  ELSE {<<"C14", "values differ">>})

Broken(S, ev) ==
    CASE ev.e = "dump" ->
            IF ev.crashed THEN {<<"C14", "dump crashes">>}
            ELSE (IF ev.err = "" /\ ev.fault # "" THEN {<<"C14", "failure to read is not reported: " \o ev.fault>>} ELSE {})
                 \cup (IF ev.err # "" /\ ev.fault = "" THEN {<<"C14", "dump fails without cause">>} ELSE {})
                 \cup (IF ev.err = "" /\ S.opts.schemaonly /\ ev.data THEN {<<"C14", "data in a dump of the schema only">>} ELSE {})
                 \cup (IF ev.err = "" /\ S.opts.dataonly /\ ~S.opts.schemaonly /\ ev.schema THEN {<<"C14", "schema in a dump of data only">>} ELSE {})
      [] ev.e = "load" -> IF ev.crashed THEN {<<"C14", "load crashes">>} ELSE IF ev.err # "" THEN {<<"C14", "the dump cannot be loaded">>} ELSE {}
      [] ev.e = "final" ->
            (IF Tables(ev.cat) # ExpectedTables(S) THEN {<<"C14", "tables differ">>} ELSE {})
            \cup UNION {Differs(S, ev, k) : k \in Tables(ev.cat) \cap ExpectedTables(S)}
      [] OTHER -> {}
=============================================================================
