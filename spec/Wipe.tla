-------------------------------- MODULE Wipe --------------------------------
(* Wiping a database: which objects depend on which, which DROP statements a  *)
(* database accepts, what they remove, and what must hold when the command    *)
(* ends (property C08).                                                       *)
(*                                                                            *)
(* An object is [k, s, n, a, own, on]: its kind, schema, name, argument list  *)
(* (routines), the table it is a part of (0: none) and the objects it refers  *)
(* to.  Objects are numbered by their position; the state knows which are     *)
(* alive.  Kinds: table, view, matview, fk, trigger, function, procedure,     *)
(* enum, domain, extension.                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

ToSet(s) == {s[i] : i \in DOMAIN s}

(* ------------------------------------------------------------------------ *)
(* What a statement does.                                                    *)

Parts(objs, alive, X) == {i \in alive : objs[i].own \in X}

(* Everything that refers to, or is a part of, something in X. *)
RECURSIVE Dependents(_, _, _)
Dependents(objs, alive, X) ==
    LET Y == X \cup Parts(objs, alive, X) \cup {i \in alive : ToSet(objs[i].on) \cap X # {}}
    IN  IF Y = X THEN X ELSE Dependents(objs, alive, Y)

Referrers(objs, alive, X) ==
    {i \in alive : ToSet(objs[i].on) \cap X # {} /\ objs[i].own \notin X /\ i \notin X}

Kinds(k) ==
    CASE k = "view" -> {"view"}
      [] k = "materialized view" -> {"matview"}
      [] k = "function" -> {"function"}
      [] k = "procedure" -> {"procedure"}
      [] k = "type" -> {"enum", "domain"}
      [] k = "domain" -> {"domain"}
      [] k = "extension" -> {"extension"}
Relations == {"table", "view", "matview"}

Key(o) == o.s \o "." \o o.n

(* The objects an operation names. *)
Named(objs, alive, op) ==
    CASE op.o = "droptable" -> {i \in alive : objs[i].k = "table" /\ Key(objs[i]) = op.t}
      [] op.o = "dropcon"   -> {i \in alive : objs[i].k = "fk" /\ objs[i].n = op.n /\ objs[i].own # 0 /\ Key(objs[objs[i].own]) = op.t}
      [] op.o = "drop"      -> {i \in alive : /\ objs[i].k \in Kinds(op.k)
                                              /\ objs[i].n = op.n
                                              /\ (op.k = "extension" \/ objs[i].s = op.s)
                                              /\ (op.hasargs => objs[i].a = op.args)}

(* Another relation has that name: an error even with IF EXISTS. *)
OtherKind(objs, alive, op) ==
    LET rel == op.o = "droptable" \/ (op.o = "drop" /\ op.k \in {"view", "materialized view"})
        key == IF op.o = "droptable" THEN op.t ELSE IF op.o = "drop" THEN op.s \o "." \o op.n ELSE ""
    IN  rel /\ \E i \in alive : objs[i].k \in Relations /\ Key(objs[i]) = key

(* Which statements the dialects have at all. *)
Known(d, op) ==
    CASE op.o = "droptable" -> (op.cascade => d \in {"postgres", "mysql"})
      [] op.o = "dropcon"   -> (op.cascade => d = "postgres") /\ (op["if"] => d \in {"postgres", "sqlserver"})
      [] op.o = "drop"      -> /\ (op.k \in {"materialized view", "type", "domain", "extension"} => d = "postgres")
                               /\ (op.cascade => d = "postgres" \/ (d = "mysql" /\ op.k = "view"))
      [] OTHER -> FALSE

Fail == [ok |-> FALSE, alive |-> {}]
Do(d, objs, alive, op) ==
    IF ~Known(d, op) THEN Fail
    ELSE
    LET X == Named(objs, alive, op)
        tableThere == \E i \in alive : objs[i].k = "table" /\ Key(objs[i]) = op.t
    IN  IF op.o = "dropcon" /\ (X = {}) THEN (IF op["if"] /\ tableThere THEN [ok |-> TRUE, alive |-> alive] ELSE Fail)
        ELSE IF X = {} THEN (IF op["if"] /\ ~OtherKind(objs, alive, op) THEN [ok |-> TRUE, alive |-> alive] ELSE Fail)
        ELSE IF Cardinality(X) > 1 THEN Fail   \* the name of a routine is not unique
        ELSE IF d = "postgres"
             THEN IF op.cascade THEN [ok |-> TRUE, alive |-> alive \ Dependents(objs, alive, X)]
                  ELSE IF Referrers(objs, alive, X \cup Parts(objs, alive, X)) # {} THEN Fail
                  ELSE [ok |-> TRUE, alive |-> alive \ (X \cup Parts(objs, alive, X))]
        ELSE IF op.o = "droptable" /\ \E i \in Referrers(objs, alive, X) : objs[i].k = "fk" THEN Fail
        ELSE [ok |-> TRUE, alive |-> alive \ (X \cup Parts(objs, alive, X))]

RECURSIVE DoAll(_, _, _, _)
DoAll(d, objs, alive, ops) ==
    IF ops = <<>> THEN [ok |-> TRUE, alive |-> alive]
    ELSE LET r == Do(d, objs, alive, ops[1])
         IN  IF r.ok THEN DoAll(d, objs, r.alive, SubSeq(ops, 2, Len(ops)))
             ELSE [ok |-> FALSE, alive |-> alive]

(* What a user would have to remove: plpgsql comes with the server. *)
Users(objs, alive) == {i \in alive : ~(objs[i].k = "extension" /\ objs[i].n = "plpgsql")}

Transactional(d) == d # "mysql"

(* ------------------------------------------------------------------------ *)
(* The run of a command against a server that is specified here (Postgres,   *)
(* MySQL, SQL Server).  Events: init, run, begin, do, commit, rollback, end. *)
(* For SQLite the database is real: events init and sqlite.                  *)

None == [d |-> ""]

Snapshot(S) == S.alive

Step(S, ev) ==
    CASE ev.e = "init" ->
           [d |-> ev.d, objs |-> ev.objs, alive |-> DOMAIN ev.objs, tx |-> FALSE, saved |-> {}, before |-> {}, failed |-> FALSE, changed |-> FALSE,
            ops |-> <<>>, dryops |-> <<>>, isdry |-> FALSE]
      [] ev.e = "run" ->
           [S EXCEPT !.before = S.alive, !.failed = FALSE, !.changed = FALSE, !.tx = FALSE, !.ops = <<>>, !.isdry = ev.dry]
      [] ev.e = "begin" ->
           IF ev.fail THEN [S EXCEPT !.failed = TRUE] ELSE [S EXCEPT !.tx = TRUE, !.saved = S.alive]
      [] ev.e = "do" ->
           LET ops == IF ev.fail THEN SubSeq(ev.ops, 1, ev.upto) ELSE ev.ops
               r == DoAll(S.d, S.objs, S.alive, ops)
           IN  [S EXCEPT !.alive = r.alive, !.changed = (S.changed \/ r.alive # S.alive), !.failed = (S.failed \/ ev.fail), !.ops = S.ops \o ev.ops]
      [] ev.e = "commit" ->
           IF ev.fail THEN [S EXCEPT !.failed = TRUE, !.tx = FALSE, !.alive = S.saved] ELSE [S EXCEPT !.tx = FALSE]
      [] ev.e = "rollback" ->
           IF S.tx THEN [S EXCEPT !.tx = FALSE, !.alive = S.saved] ELSE S
      [] ev.e = "end" ->
           [S EXCEPT !.dryops = (IF S.isdry THEN ev.printed ELSE S.dryops), !.alive = (IF S.tx THEN S.saved ELSE S.alive), !.tx = FALSE]
      [] ev.e = "sqlite" -> S

(* The order in which objects that do not depend on each other are dropped   *)
(* is nobody's business: compare what is printed with what is run as bags.    *)
SameOps(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in DOMAIN a : Cardinality({j \in DOMAIN a : a[j] = a[i]}) = Cardinality({j \in DOMAIN b : b[j] = a[i]})

C(clause) == {<<"C08", clause>>}
If(b, clause) == IF b THEN C(clause) ELSE {}

Broken(S, ev) ==
    CASE ev.e = "do" ->
           LET r == DoAll(S.d, S.objs, S.alive, ev.ops)
           IN  If(~ev.fail /\ ~r.ok, S.d \o ": a statement is not accepted by the database")
               \cup If(S.isdry, "dry run executes statements")
               \cup If(Transactional(S.d) /\ ~S.tx, "executed outside of a transaction")
      [] ev.e = "end" ->
           LET left == IF S.tx THEN S.saved ELSE S.alive
           IN  IF S.isdry
               THEN LET r == DoAll(S.d, S.objs, S.alive, ev.printed)
                    IN  If(ev.err # "" /\ ~S.failed, "dry run fails")
                        \cup If(ev.err = "" /\ ~r.ok, S.d \o ": a printed statement is not accepted by the database")
                        \cup If(ev.err = "" /\ r.ok /\ Users(S.objs, r.alive) # {}, S.d \o ": the printed statements leave objects")
               ELSE If(ev.err # "" /\ ~S.failed, "wipe fails")
                    \cup If(ev.err = "" /\ S.failed, "a failure is not reported")
                    \cup If(ev.err = "" /\ ~S.failed /\ Users(S.objs, left) # {}, S.d \o ": objects remain")
                    \cup If(ev.err # "" /\ Transactional(S.d) /\ left # S.before, "a failed wipe leaves changes")
                    \cup If(ev.err = "" /\ ev.printed # <<>>, "wipe prints statements")
                    \cup If(ev.err = "" /\ ev.dried /\ ~SameOps(S.dryops, S.ops), "dry run prints other statements")
      [] ev.e = "sqlite" ->
           (* before, after: objects of the real database; faulted: a call failed; late: the failed call may have taken effect *)
           LET b == ToSet(ev.before)  a == ToSet(ev.after)
               why == IF ev.brk THEN ": a view refers to a table that does not exist" ELSE ""
           IN  IF ev.dry
               THEN If(a # b, "dry run changes the database")
                    \cup If(ev.err # "" /\ ~ev.faulted, "dry run fails" \o why)
                    \cup If(ev.err = "" /\ ~ev.replayed, "sqlite: a printed statement is not accepted by the database")
                    \cup If(ev.err = "" /\ ev.replayed /\ ev.copy # <<>>, "sqlite: the printed statements leave objects")
               ELSE If(ev.err # "" /\ ~ev.faulted, "wipe fails" \o why)
                    \cup If(ev.err = "" /\ ev.faulted, "a failure is not reported")
                    \cup If(ev.err = "" /\ ~ev.faulted /\ a # {}, "sqlite: objects remain")
                    \cup If(ev.err # "" /\ a # b /\ ~(ev.late /\ a = {}), "a failed wipe leaves changes")
                    \cup If(~ev.fks, "foreign keys are no longer enforced after the wipe")
      [] OTHER -> {}
=============================================================================
