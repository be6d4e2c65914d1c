------------------------------- MODULE Restore -------------------------------
(* The schema files of a dump of a Postgres, MySQL or SQL Server database,    *)
(* executed in an empty one in the order in which they are loaded: schema,    *)
(* indexes, constraints. A statement is accepted or refused by the rules of   *)
(* Schema.                                                                    *)
(*                                                                            *)
(* State: [d, cur, want: the catalog that was dumped, cat: the catalog        *)
(* reached, types and exts: the types and extensions made, wanted: those that *)
(* were dumped, over: a statement was refused]                                *)
EXTENDS Schema

NoRestore == [d |-> "none"]

Blank(cur) == [s |-> <<cur>>, t |-> EmptyFn]

(* Schemas with nothing in them are not part of a dump. *)
Peopled(R) == {SchemaOf(k) : k \in Tables(R.want) \cup DOMAIN R.wanted.types}

(* ------------------------------------------------ Postgres types, extensions *)

IsType(ops) == \E op \in Range(ops) : op.o = "createtype"
IsExt(ops) == \E op \in Range(ops) : op.o = "createext"

(* The types a statement needs, by name; column types are in upper case. *)
Uses(R, ops) ==
    UNION {{op.def.c[n].b : n \in DOMAIN op.def.c} : op \in {o \in Range(ops) : o.o = "createtable"}}

WhyTyped(R, ev) ==
    IF IsType(ev.ops)
    THEN LET op == ev.ops[1] IN
         Unless(op.s \in Range(R.cat.s), "a type in a schema that does not exist")
         \cup Unless(op.s \o "." \o op.n \notin DOMAIN R.types \cup Tables(R.cat), "a type exists")
    ELSE IF IsExt(ev.ops)
    THEN Unless(ev.ops[1]["if"] \/ ev.ops[1].n \notin R.exts, "an extension exists")
    ELSE Unless(\A b \in Uses(R, ev.ops) \cap {R.wanted.upper[k] : k \in DOMAIN R.wanted.upper} :
                  \E k \in DOMAIN R.types : R.wanted.upper[k] = b, "a type that does not exist yet")
         \cup Exec(R.d, R.cat, ev.ops).why

TypesDiff(R) ==
    Unless(DOMAIN R.types = DOMAIN R.wanted.types, "the types")
    \cup Unless(\A k \in DOMAIN R.types \cap DOMAIN R.wanted.types : R.types[k].labels = R.wanted.types[k].labels, "the labels of an enum")
    \cup Unless(\A k \in DOMAIN R.types \cap DOMAIN R.wanted.types : [R.types[k] EXCEPT !.labels = <<>>] = [R.wanted.types[k] EXCEPT !.labels = <<>>], "a domain")
    \cup Unless(R.exts = R.wanted.exts, "the extensions")

RestoreDiff(R) ==
    Unless(Range(R.cat.s) \ {R.cur} = Peopled(R) \ {R.cur}, "the schemas")
    \cup Unless(Tables(R.cat) = Tables(R.want), "the tables")
    \cup UNION {TableDiff(R.d, R.want.t[k], R.cat.t[k], R.want.t[k], TRUE, TRUE)
               \cup LET x == R.cat.t[k]
                        w == R.want.t[k]
                    IN  Unless(Of(x, "CK") = Of(w, "CK") /\ \A n \in Of(w, "CK") : n \in Cons(x) => ~ConsDiff(x.k[n], w.k[n]), "the checks of a table")
               : k \in Tables(R.want) \cap Tables(R.cat)}
    \cup TypesDiff(R)

RestoreBroken(R, ev) ==
    CASE ev.e = "dumped" ->
           IF ev.crashed THEN {<<"C21", R.d \o ": dumping crashes">>} ELSE IF ev.err # "" /\ ~ev.faulted THEN {<<"C21", R.d \o ": dumping fails">>} ELSE {}
      [] ev.e = "stmt" ->
           IF R.over THEN {} ELSE Tag("C21", R.d \o ": a statement of " \o ev.file \o " fails: ", WhyTyped(R, ev))
      [] ev.e = "stray" -> {<<"C21", "a dump of the schema only has data">>}
      [] ev.e = "restored" ->
           IF R.over THEN {} ELSE Tag("C21", R.d \o ": the schema restored differs in ", RestoreDiff(R))
      [] OTHER -> {}

RestoreStep(R, ev) ==
    CASE ev.e = "begin" -> [d |-> ev.d, cur |-> ev.cur, want |-> Real(ev.d, ev.cat), cat |-> Blank(ev.cur), over |-> FALSE,
                             types |-> EmptyFn, exts |-> {}, wanted |-> [types |-> ev.types, upper |-> ev.upper, exts |-> Range(ev.exts)]]
      [] ev.e = "dumped" -> [R EXCEPT !.over = ev.err # ""]
      [] ev.e = "stmt" ->
           IF R.over THEN R
           ELSE IF WhyTyped(R, ev) # {} THEN [R EXCEPT !.over = TRUE]
           ELSE IF IsType(ev.ops) THEN [R EXCEPT !.types = (ev.ops[1].s \o "." \o ev.ops[1].n :> ev.ops[1].def) @@ @]
           ELSE IF IsExt(ev.ops) THEN [R EXCEPT !.exts = @ \cup {ev.ops[1].n}]
           ELSE [R EXCEPT !.cat = Exec(R.d, R.cat, ev.ops).cat]
      [] OTHER -> R
=============================================================================
