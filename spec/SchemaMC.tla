------------------------------ MODULE SchemaMC ------------------------------
(* Schema on a small universe of catalogs.                                    *)
(*                                                                            *)
(* mode "plan": for every pair of catalogs and every dialect a plain plan     *)
(* (drop everything that is in the way, change, put everything back) runs     *)
(* without breaking a clause, so what is owed can be delivered; and no schema *)
(* owed is contradictory.                                                     *)
(* mode "walk": whatever statements a server accepts, its catalog stays       *)
(* well-formed, and a file that is undone leaves nothing behind.              *)
EXTENDS SchemaSmall

CONSTANTS Mode, Depth

(* ------------------------------------------------------------- the plan *)

RECURSIVE SetToSeq(_)
SetToSeq(U) == IF U = {} THEN <<>> ELSE LET x == CHOOSE y \in U : TRUE IN <<x>> \o SetToSeq(U \ {x})
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Each(U, op(_)) == [i \in 1..Cardinality(U) |-> <<op(SetToSeq(U)[i])>>]

FKsOf(cat) == UNION {{<<k, n>> : n \in Of(cat.t[k], "FK")} : k \in Tables(cat)}
KeysOf(cat) == UNION {{<<k, n>> : n \in Of(cat.t[k], "PK") \cup Of(cat.t[k], "UQ")} : k \in Tables(cat)}
IdxsOf(cat) == UNION {{<<k, n>> : n \in Idxs(cat.t[k])} : k \in Tables(cat)}
ColsOf(cat) == UNION {{<<k, n>> : n \in Cols(cat.t[k])} : k \in Tables(cat)}

(* The catalog owed. *)
Union(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Merge(d, a, w) ==
    LET repl == IF Of(w, "PK") # {} THEN Of(a, "PK") \ Of(w, "PK") ELSE {} IN
    [w EXCEPT !.c = Union(a.c, @), !.k = Union(Without(a.k, repl), @), !.i = Union(a.i, @)]
Goal(S) ==
    IF S.drop THEN S.decl
    ELSE [S.decl EXCEPT !.t = [k \in Tables(S.decl) \cup Tables(S.src) |->
             IF k \notin Tables(S.src) THEN S.decl.t[k] ELSE IF k \notin Tables(S.decl) THEN S.src.t[k] ELSE Merge(S.d, S.src.t[k], S.decl.t[k])]]

DropCon(c) == [o |-> "dropcon", t |-> c[1], n |-> c[2], if |-> FALSE, cascade |-> FALSE]
AddCon(g, nv, c) == [o |-> "addcon", t |-> c[1], n |-> c[2], k |-> [g.t[c[1]].k[c[2]] EXCEPT !.nv = nv], using |-> ""]

Alter(d, c, x, y) ==
    IF d = MY THEN <<<<[o |-> "modifycol", t |-> c[1], n |-> c[2], col |-> y]>>>>
    ELSE IF d = MS
    THEN (IF x.def = "" THEN <<>> ELSE <<<<[o |-> "dropdef", t |-> c[1], n |-> c[2], exact |-> TRUE]>>>>)
         \o (IF SameType(d, x, y) /\ x.nn = y.nn THEN <<>>
             ELSE <<<<[o |-> "altercol", t |-> c[1], n |-> c[2], b |-> y.b, a |-> y.a, coll |-> y.coll, nn |-> y.nn]>>>>)
         \o (IF y.def = "" THEN <<>> ELSE <<<<[o |-> "adddef", t |-> c[1], n |-> c[2], def |-> y.def]>>>>)
    ELSE (IF x.def = "" THEN <<>> ELSE <<<<[o |-> "dropdef", t |-> c[1], n |-> c[2]]>>>>)
         \o (IF SameType(d, x, y) THEN <<>> ELSE <<<<[o |-> "altertype", t |-> c[1], n |-> c[2], b |-> y.b, a |-> y.a, coll |-> y.coll]>>>>)
         \o (IF y.def = "" THEN <<>> ELSE <<<<[o |-> "setdef", t |-> c[1], n |-> c[2], def |-> y.def]>>>>)
         \o <<<<[o |-> "setnn", t |-> c[1], n |-> c[2], nn |-> y.nn]>>>>

Plan(S) ==
    LET d == S.d
        g == Goal(S)
        old == Tables(S.src) \cap Tables(g)
        new == Tables(g) \ Tables(S.src)
        inOld(U) == {c \in U : c[1] \in old}
        gone == {c \in ColsOf(S.src) : c[1] \in old /\ c[2] \notin Cols(g.t[c[1]])}
        more == {c \in ColsOf(g) : c[1] \in old /\ c[2] \notin Cols(S.src.t[c[1]])}
        want(c) == Settle(d, g.t[c[1]]).c[c[2]]
        change == {c \in inOld(ColsOf(S.src)) \ gone : S.src.t[c[1]].c[c[2]] # want(c)}
        alters == LET cs == SetToSeq(change) IN Flat([i \in DOMAIN cs |-> Alter(d, cs[i], S.src.t[cs[i][1]].c[cs[i][2]], want(cs[i]))])
        computed(U, cat, is) == {c \in U : (cat.t[c[1]].c[c[2]].gen # "") = is}
        addcol(c) == [o |-> "addcol", t |-> c[1], n |-> c[2], col |-> g.t[c[1]].c[c[2]]]
        dropcol(c) == [o |-> "dropcol", t |-> c[1], n |-> c[2], if |-> FALSE, cascade |-> FALSE]
        created == IF d = MY THEN {} ELSE new
    IN  Each(FKsOf(S.src), DropCon)
        \o Each(IdxsOf(S.src), LAMBDA c : [o |-> "dropidx", t |-> c[1], s |-> SchemaOf(c[1]), n |-> c[2], if |-> FALSE, conc |-> FALSE])
        \o Each(KeysOf(S.src), DropCon)
        \o Each(computed(gone, S.src, TRUE), dropcol) \o Each(computed(gone, S.src, FALSE), dropcol)
        \o Each(Tables(S.src) \ Tables(g), LAMBDA k : [o |-> "droptable", t |-> k, if |-> FALSE, cascade |-> FALSE])
        \o Each(new, LAMBDA k : [o |-> "createtable", t |-> k, if |-> FALSE, dup |-> <<>>,
                                 def |-> [g.t[k] EXCEPT !.k = Without(@, Of(g.t[k], "FK"))]])
        \o alters
        \o Each(computed(more, g, FALSE), addcol) \o Each(computed(more, g, TRUE), addcol)
        \o Each({c \in KeysOf(g) : c[1] \in Tables(S.src)}, LAMBDA c : AddCon(g, FALSE, c))
        \o Each({c \in IdxsOf(g) : c[1] \in Tables(S.src)}, LAMBDA c : [o |-> "createidx", t |-> c[1], n |-> c[2], x |-> g.t[c[1]].i[c[2]], if |-> FALSE, conc |-> d = PG])
        \o Each(FKsOf(g), LAMBDA c : AddCon(g, d = PG, c))
        \o (IF d = PG THEN Each(FKsOf(g), LAMBDA c : [o |-> "validate", t |-> c[1], n |-> c[2]]) ELSE <<>>)

(* One file per statement, with an undo file where nothing is rolled back. *)
FileFor(d, cat, ops) ==
    LET conc == \E op \in Range(ops) : "conc" \in DOMAIN op /\ op.conc
        made == Makes(d, cat, ops)
        un(m) == CASE m[1] = "t" -> [o |-> "droptable", t |-> m[2], if |-> TRUE, cascade |-> FALSE]
                   [] m[1] = "i" -> [o |-> "dropidx", s |-> m[2], n |-> m[3], t |-> "", if |-> TRUE, conc |-> conc]
                   [] OTHER -> [o |-> "dropschema", s |-> m[2], if |-> TRUE, cascade |-> FALSE]
        undo == conc \/ (d = MY /\ made # {})
    IN  [e |-> "file", name |-> "f", kind |-> IF conc THEN "txoff" ELSE "tx", named |-> TRUE, stmts |-> 1, hasundo |-> undo,
         undo |-> IF undo THEN [i \in 1..Cardinality(made) |-> un(SetToSeq(made)[i])] ELSE <<>>]

(* ------------------------------------------------------------ the walk *)

Moves(d, cat) ==
    LET cols == ColsOf(cat)
        keys == Tables(cat)
        gs == {c \in Singles(d) \cup Doubles(d) : Cardinality(Tables(c)) = 2 \/ \E k \in Tables(c) : c.t[k].k # EmptyFn}
    IN  {[o |-> "droptable", t |-> k, if |-> FALSE, cascade |-> cs] : k \in keys, cs \in BOOLEAN}
        \cup {[o |-> "createtable", t |-> k, if |-> FALSE, dup |-> <<>>, def |-> df] : k \in {Key(d, "a"), Key(d, "b")},
              df \in {A(d, Base), A(d, [Base EXCEPT !.uq = TRUE, !.y = "gen"]), B(d, ""), B(d, "a"), B(d, "b")}}
        \cup {[o |-> "dropcol", t |-> c[1], n |-> c[2], if |-> FALSE, cascade |-> cs] : c \in cols, cs \in IF d = PG THEN BOOLEAN ELSE {FALSE}}
        \cup {[o |-> "addcol", t |-> k, n |-> "y", col |-> cl] : k \in keys, cl \in {Col("INT", <<>>, FALSE, ""), Gen("x")}}
        \cup {[DropCon(c) EXCEPT !.cascade = cs] : c \in FKsOf(cat) \cup KeysOf(cat), cs \in IF d = PG THEN BOOLEAN ELSE {FALSE}}
        \cup {[o |-> "dropidx", t |-> c[1], s |-> SchemaOf(c[1]), n |-> c[2], if |-> FALSE, conc |-> FALSE] : c \in IdxsOf(cat)}
        \cup {[o |-> "createidx", t |-> k, n |-> "ix", x |-> x, if |-> FALSE, conc |-> FALSE] : k \in keys, x \in {Idx(u, <<c>>) : u \in BOOLEAN, c \in {"x", "id", "y"}}}
        \cup {[o |-> "addcon", t |-> k, n |-> n[1], k |-> n[2], using |-> IF n[2].k = "FK" THEN "" ELSE us] : k \in keys, us \in IF d = PG THEN {"", "ix"} ELSE {""},
              n \in {<<PKName(d, "a"), Con("PK", <<"id">>, "", <<>>)>>, <<"p2", Con("PK", <<"x">>, "", <<>>)>>, <<"u1", Con("UQ", <<"x">>, "", <<>>)>>,
                     <<"f1", Con("FK", <<"id">>, Key(d, "a"), <<"id">>)>>, <<"f2", Con("FK", <<"x">>, Key(d, "a"), <<"x">>)>>}}
        \cup {[o |-> "setnn", t |-> c[1], n |-> c[2], nn |-> v] : c \in IF d = PG THEN cols ELSE {}, v \in BOOLEAN}
        \cup {[o |-> "altercol", t |-> c[1], n |-> c[2], b |-> "INT", a |-> <<>>, coll |-> "", nn |-> v] : c \in IF d = MS THEN cols ELSE {}, v \in BOOLEAN}
        \cup {[o |-> "modifycol", t |-> c[1], n |-> c[2], col |-> Col("INT", <<>>, v, "")] : c \in IF d = MY THEN cols ELSE {}, v \in BOOLEAN}

Sound(d, cat) ==
    \A key \in Tables(cat) : LET t == cat.t[key] IN
        /\ SchemaOf(key) \in Range(cat.s)
        /\ Cardinality(Of(t, "PK")) <= 1
        /\ \A n \in PKCols(t) : t.c[n].nn
        /\ \A n \in Cols(t) : Range(t.c[n].refs) \subseteq Cols(t)
        /\ \A n \in Cons(t) : t.k[n].cols # <<>> /\ Range(t.k[n].cols) \subseteq Cols(t)
        /\ \A n \in Idxs(t) : t.i[n].cols # <<>> /\ Range(t.i[n].cols) \subseteq Cols(t)
        /\ \A n \in Of(t, "FK") : t.k[n].rt \in Tables(cat) /\ KeysFor(d, cat.t[t.k[n].rt], t.k[n].rc) # {}
        /\ (d = PG => \A n \in Idxs(t) : ~Taken(d, [cat EXCEPT !.t[key].i = Without(@, {n})], key, n, "IX"))

(* ----------------------------------------------------------------- model *)

VARIABLES S, todo, broken, last, done

Start(d, a, b, drop) == Step(None, [e |-> "start", d |-> d, ver |-> 14, cat |-> a, decl |-> b, drop |-> drop])

MCInit ==
    /\ broken = {}
    /\ done = FALSE
    /\ last = <<>>
    /\ IF Mode = "plan"
       THEN \E d \in {PG, MY, MS} : \E drop \in BOOLEAN :
            \/ \E a, b \in Singles(d) : S = Start(d, a, b, drop) /\ todo = Plan(S)
            \/ \E a, b \in Doubles(d) : S = Start(d, a, b, drop) /\ todo = Plan(S)
       ELSE \E d \in {PG, MY, MS} : \E a \in Doubles(d) : S = Start(d, a, a, FALSE) /\ todo = <<>>

End == [e |-> "end", strayundo |-> 0, previewed |-> TRUE]

PlanNext ==
    \/ /\ todo # <<>>
       /\ LET f == FileFor(S.d, S.cat, Head(todo))
              st == [e |-> "stmt", ops |-> Head(todo)]
              T == Step(S, f)
          IN  /\ broken' = broken \cup Broken(S, f) \cup Broken(T, st)
              /\ S' = Step(T, st)
       /\ todo' = Tail(todo)
       /\ UNCHANGED <<last, done>>
    \/ /\ todo = <<>> /\ ~done
       /\ broken' = broken \cup Broken(S, End)
       /\ done' = TRUE
       /\ UNCHANGED <<S, todo, last>>

WalkNext ==
    /\ Len(todo) < Depth
    /\ \E op \in Moves(S.d, S.cat) :
         /\ Exec(S.d, S.cat, <<op>>).why = {}
         /\ S' = [S EXCEPT !.cat = Exec(S.d, S.cat, <<op>>).cat]
         /\ last' = <<S.cat, op>>
    /\ todo' = Append(todo, 0)
    /\ UNCHANGED <<broken, done>>

MCNext == IF Mode = "plan" THEN PlanNext ELSE WalkNext

(* A plan is only wanted where the declared schema can be reached.            *)
Delivered == Mode = "plan" /\ S.reach /\ Beyond(S) = {} => {b \in broken : b[1] \in {"C10", "C11", "C13"}} = {}
StaysSound == Sound(S.d, S.cat)

(* Undoing what a file made restores the catalog. *)
UndoWorks ==
    Mode = "walk" /\ last # <<>> =>
        LET cat == last[1]
            ops == <<last[2]>>
            f == FileFor(S.d, cat, ops)
        IN  f.hasundo => Run(S.d, S.cat, f.undo).cat = cat
MCView == <<S.d, S.drop, S.src, S.decl, S.cat, todo, broken, done>>
=============================================================================
