------------------------------ MODULE RestoreMC ------------------------------
(* The design of a dump of the schema: three files, the foreign keys last.    *)
(* The order of the tables is whatever the database lists them in. Every      *)
(* database of a small universe is restored without a refused statement.      *)
(*                                                                            *)
(* With Last = FALSE the foreign keys of a schema follow the keys of that     *)
(* schema, which an order of two schemas refuses: the model finds it.         *)
EXTENDS RestoreSmall

CONSTANTS Last

Inline(d) == d \in {MY, MS}

FKsIn(cat) == UNION {{<<k, n>> : n \in Of(cat.t[k], "FK")} : k \in Tables(cat)}
KeysIn(d, cat) == UNION {{<<k, n>> : n \in Of(cat.t[k], "UQ") \cup (IF Inline(d) THEN {} ELSE Of(cat.t[k], "PK"))} : k \in Tables(cat)}
IdxsIn(cat) == UNION {{<<k, n>> : n \in Idxs(cat.t[k])} : k \in Tables(cat)}

Stmt(file, op) == [e |-> "stmt", file |-> file, ops |-> <<op>>]

(* The statements by phase; those of one phase come in any order. *)
Phase(d, cat, p) ==
    CASE p = 1 -> {Stmt("schema.sql", [o |-> "createschema", s |-> s, if |-> TRUE]) : s \in Range(cat.s)}
      [] p = 2 -> {Stmt("schema.sql", [o |-> "createtable", t |-> k, if |-> FALSE, dup |-> <<>>,
                        def |-> [cat.t[k] EXCEPT !.k = IF Inline(d) THEN Without(@, DOMAIN @ \ Of(cat.t[k], "PK")) ELSE EmptyFn, !.i = EmptyFn]]) : k \in Tables(cat)}
      [] p = 3 -> {Stmt("indexes.sql", [o |-> "createidx", t |-> c[1], n |-> c[2], x |-> cat.t[c[1]].i[c[2]], if |-> FALSE, conc |-> FALSE]) : c \in IdxsIn(cat)}
      [] p = 4 -> {Stmt("constraints.sql", [o |-> "addcon", t |-> c[1], n |-> c[2], k |-> cat.t[c[1]].k[c[2]], using |-> ""]) : c \in KeysIn(d, cat)}
      [] OTHER -> {Stmt("constraints.sql", [o |-> "addcon", t |-> c[1], n |-> c[2], k |-> cat.t[c[1]].k[c[2]], using |-> ""]) : c \in FKsIn(cat)}

VARIABLES R, p, todo, broken

Begin(d, cat) == [e |-> "begin", d |-> d, cur |-> Main(d), cat |-> cat, types |-> EmptyFn, upper |-> EmptyFn, exts |-> <<>>]

MCInit ==
    \E d \in {PG, MY, MS} : \E cat \in Databases(d) :
        /\ R = RestoreStep(NoRestore, Begin(d, cat))
        /\ p = 1
        /\ todo = Phase(d, R.want, 1)
        /\ broken = {}

(* A statement of a later phase that may come early. *)
Early(ev) ==
    /\ ~Last
    /\ p = 4
    /\ \A e \in todo : SchemaOf(e.ops[1].t) # SchemaOf(ev.ops[1].t)

Write(ev) ==
    /\ broken' = broken \cup RestoreBroken(R, ev)
    /\ R' = RestoreStep(R, ev)

MCNext ==
    \/ \E ev \in todo : Write(ev) /\ todo' = todo \ {ev} /\ p' = p
    \/ \E ev \in Phase(R.d, R.want, 5) : Early(ev) /\ Write(ev) /\ UNCHANGED <<todo, p>>
    \/ todo = {} /\ p < 5 /\ p' = p + 1 /\ todo' = Phase(R.d, R.want, p + 1) /\ UNCHANGED <<R, broken>>
    \/ todo = {} /\ p = 5 /\ p' = 6 /\ broken' = broken \cup RestoreBroken(R, [e |-> "restored"]) /\ UNCHANGED <<R, todo>>

Restored == broken = {}
=============================================================================
