------------------------------- MODULE WipeMC -------------------------------
(* Every small database (tables with any foreign keys between them, a view,   *)
(* a view over it, overloaded functions, an enum used by a table) is wiped by *)
(* the plan the command follows: views, foreign keys, tables, routines, types *)
(* - in every order within a group, failing after any statement.  The plan    *)
(* must be accepted and leave nothing; a failure leaves everything where DDL  *)
(* is transactional.                                                          *)
EXTENDS Wipe

CONSTANTS D,      \* dialect
          NT      \* number of tables

VARIABLES S, todo, phase

Tables == 1..NT
Obj(k, n, a, own, on) == [k |-> k, s |-> "p", n |-> n, a |-> a, own |-> own, on |-> on]
Name(i) == <<"a", "b", "c">>[i]

Pairs == Tables \X Tables
RECURSIVE SeqOf(_)
SeqOf(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o SeqOf(X \ {x})

Objs(fks, base, f2, en) ==
    LET tabs == [i \in Tables |-> Obj("table", Name(i), "", 0, IF en /\ i = 1 THEN <<NT + 1>> ELSE <<>>)]
        enum == <<Obj(IF en THEN "enum" ELSE "function", "e", "", 0, <<>>)>>
        f == SeqOf(fks)
        fk == [i \in 1..Len(f) |-> Obj("fk", "fk" \o ToString(i), "", f[i][1], <<f[i][2]>>)]
        n == NT + 1 + Len(f)
        view == <<Obj("view", "v", "", 0, <<base>>), Obj("view", "w", "", 0, <<n + 1>>)>>
        fun == <<Obj("function", "f", "", 0, <<>>)>> \o (IF f2 THEN <<Obj("function", "f", "x", 0, <<>>)>> ELSE <<>>)
    IN  tabs \o enum \o fk \o view \o fun

Databases == {Objs(fks, base, f2, en) : fks \in SUBSET Pairs, base \in Tables, f2 \in (IF D = "postgres" THEN BOOLEAN ELSE {FALSE}), en \in (IF D = "postgres" THEN BOOLEAN ELSE {FALSE})}

Pg == D = "postgres"
Op(o) ==
    CASE o.k = "table" -> [o |-> "droptable", t |-> Key(o), cascade |-> (D \in {"postgres", "mysql"})] @@ ("if" :> TRUE)
      [] o.k = "view" -> [o |-> "drop", k |-> "view", s |-> o.s, n |-> o.n, hasargs |-> FALSE, args |-> "", cascade |-> (D \in {"postgres", "mysql"})] @@ ("if" :> TRUE)
      [] o.k = "function" -> [o |-> "drop", k |-> "function", s |-> o.s, n |-> o.n, hasargs |-> Pg, args |-> o.a, cascade |-> Pg] @@ ("if" :> TRUE)
      [] o.k = "enum" -> [o |-> "drop", k |-> "type", s |-> o.s, n |-> o.n, hasargs |-> FALSE, args |-> "", cascade |-> TRUE] @@ ("if" :> TRUE)
FkOp(objs, o) == [o |-> "dropcon", t |-> Key(objs[o.own]), n |-> o.n, cascade |-> Pg] @@ ("if" :> FALSE)

Rank(k) == CASE k = "view" -> 1 [] k = "fk" -> 2 [] k = "table" -> 3 [] k = "function" -> 4 [] k = "enum" -> 5
First(X) == {i \in X : \A j \in X : Rank(S.objs[i].k) <= Rank(S.objs[j].k)}

MCInit ==
    \E objs \in Databases :
        LET s == Step(Step(None, [e |-> "init", d |-> D, objs |-> objs]), [e |-> "run", dry |-> FALSE])
        IN  /\ S = (IF Transactional(D) THEN Step(s, [e |-> "begin", fail |-> FALSE]) ELSE s)
            /\ todo = DOMAIN objs
            /\ phase = "go"

Ev(i, fail) == [e |-> "do", ops |-> <<(IF S.objs[i].k = "fk" THEN FkOp(S.objs, S.objs[i]) ELSE Op(S.objs[i]))>>, fail |-> fail, upto |-> 0]
End(err) == [e |-> "end", err |-> err, printed |-> <<>>, dried |-> FALSE]

MCNext ==
    \/ /\ phase = "go" /\ todo # {}
       /\ \E i \in First(todo), fail \in BOOLEAN :
            /\ Assert(Broken(S, Ev(i, fail)) = {}, <<"refused", Ev(i, fail)>>)
            /\ S' = [Step(S, Ev(i, fail)) EXCEPT !.ops = <<>>]
            /\ todo' = todo \ {i}
            /\ phase' = (IF fail THEN "failed" ELSE "go")
    \/ /\ phase = "failed"
       /\ S' = Step(S, [e |-> "rollback", fail |-> FALSE])
       /\ Assert(Broken(S', End("x")) = {}, "changes after a failure")
       /\ phase' = "over" /\ UNCHANGED todo
    \/ /\ phase = "go" /\ todo = {}
       /\ S' = (IF Transactional(D) THEN Step(S, [e |-> "commit", fail |-> FALSE]) ELSE S)
       /\ Assert(Broken(S', End("")) = {}, "objects remain")
       /\ phase' = "done" /\ UNCHANGED todo

Done == phase = "done" => S.alive = {}
Undone == (phase = "over" /\ Transactional(D)) => S.alive = DOMAIN S.objs
(* The rules bite: with foreign keys in place some table cannot be dropped.  *)
Bites == \A i \in S.alive : (S.objs[i].k = "fk" /\ S.objs[i].own # S.objs[i].on[1] /\ ~Pg)
            => ~Do(D, S.objs, S.alive, Op(S.objs[S.objs[i].on[1]])).ok
=============================================================================
