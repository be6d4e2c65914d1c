------------------------------- MODULE AutoMC -------------------------------
(* Every implementation allowed by the clauses of Auto on a small universe of *)
(* catalogs.  The implementation is adversarial: it may leave any catalog of  *)
(* the universe behind, lose, blank, repeat or reorder rows, lose unmanaged   *)
(* objects, fail or succeed - as long as no clause is broken.  The invariants *)
(* are the user-level guarantees over chains of declared schemas.  Ideal      *)
(* states the converse: the obvious implementation breaks no clause.          *)
EXTENDS Auto

CONSTANTS MaxSteps, FK, Small

Col(b, nn, def) == [b |-> b, a |-> <<>>, nn |-> nn, def |-> def, id |-> "", coll |-> "", gen |-> "", ai |-> FALSE]
Con(k, cols, rt, rc, del) == [k |-> k, cols |-> cols, rt |-> rt, rc |-> rc, upd |-> IF k = "FK" THEN "NO ACTION" ELSE "", del |-> del,
                              dfr |-> FALSE, idf |-> FALSE, nv |-> FALSE, expr |-> ""]
Idx(cols) == [u |-> FALSE, cols |-> cols, desc |-> [i \in DOMAIN cols |-> FALSE], pred |-> "", inc |-> <<>>, kind |-> ""]
Tab(o, c, k, i) == [o |-> o, c |-> c, k |-> k, i |-> i, ig |-> <<>>]

PK == "PK(id)" :> Con("PK", <<"id">>, "", <<>>, "")
A1 == Tab(<<"id", "x">>, [id |-> Col("INTEGER", FALSE, ""), x |-> Col("INT", FALSE, "")], PK, EmptyFn)
A2 == Tab(<<"id", "x">>, [id |-> Col("INTEGER", FALSE, ""), x |-> Col("TEXT", FALSE, "1")], PK, "a_x_idx" :> Idx(<<"x">>))
A3 == Tab(<<"id", "x", "y">>, [id |-> Col("INTEGER", FALSE, ""), x |-> Col("INT", FALSE, ""), y |-> Col("INT", TRUE, "0")], PK, EmptyFn)
A4 == Tab(<<"id">>, [id |-> Col("INTEGER", FALSE, "")], PK, EmptyFn)
B1 == Tab(<<"id", "r">>, [id |-> Col("INTEGER", FALSE, ""), r |-> Col("INT", FALSE, "")], PK, EmptyFn)
B2 == Tab(<<"id", "r">>, [id |-> Col("INTEGER", FALSE, ""), r |-> Col("INT", FALSE, "")],
          PK @@ ("FK(r)" :> Con("FK", <<"r">>, ".a", <<"id">>, "SET NULL")), EmptyFn)
Cat(t) == [s |-> <<"">>, t |-> t]
Cats == IF Small THEN {Cat(EmptyFn), Cat(".a" :> A1), Cat(".a" :> A2), Cat((".a" :> A3) @@ (".b" :> B2)), Cat((".a" :> A4) @@ (".b" :> B1))}
        ELSE {Cat(EmptyFn)}
        \cup {Cat(".a" :> a) : a \in {A1, A2, A3, A4}}
        \cup {Cat((".a" :> a) @@ (".b" :> b)) : a \in {A1, A2, A3, A4}, b \in {B1, B2}}
        \cup {Cat(".b" :> B1)}

Val(c) == IF c = "id" THEN <<"=1", "=2">> ELSE IF c = "r" THEN <<"=1", "NULL">> ELSE <<"=7", "=7">>
Fill(t) == [i \in 1..2 |-> [c \in Cols(t) |-> Val(c)[i]]]
Trigger == [kind |-> "trigger", name |-> "trg", on |-> ".a", cols |-> <<>>, sql |-> "..."]
Virtual == [kind |-> "virtual", name |-> "fts", on |-> "", cols |-> <<>>, sql |-> "..."]

VARIABLES S, steps, facts, objs, last, had, trig
vars == <<S, steps, facts, objs, last, had, trig>>

Facts(rows) == UNION {UNION {{<<k, rows[k][i]["id"], c, rows[k][i][c]>> : c \in DOMAIN rows[k][i]} : i \in DOMAIN rows[k]} : k \in DOMAIN rows}
Objs(cat) == {<<k>> : k \in Tables(cat)} \cup UNION {{<<k, "c", n>> : n \in Cols(cat.t[k])} \cup {<<k, "k", n>> : n \in Cons(cat.t[k])}
                                                   \cup {<<k, "i", n>> : n \in Idxs(cat.t[k])} : k \in Tables(cat)}

MCInit ==
    /\ \E cat \in Cats : \E e \in {<<>>, <<Virtual>>} \cup (IF ".a" \in Tables(cat) THEN {<<Trigger, Virtual>>} ELSE {}) :
         S = Init0([cat |-> cat, rows |-> [k \in Tables(cat) |-> Fill(cat.t[k])], extra |-> e, fk |-> FK])
    /\ steps = 0
    /\ facts = Facts(S.rows)
    /\ objs = Objs(S.cat)
    /\ had = (S.extra # <<>>)
    /\ trig = (Len(S.extra) = 2)
    /\ last = [drop |-> TRUE, ok |-> FALSE, decl |-> Cat(EmptyFn)]

(* What a faithful copy of the rows looks like in a catalog. *)
Default(col) == IF col.def = "" THEN "NULL" ELSE "=" \o col.def
Carry(cat, key) ==
    IF key \notin DOMAIN S.rows THEN <<>>
    ELSE [i \in DOMAIN S.rows[key] |-> [c \in Cols(cat.t[key]) |-> IF c \in DOMAIN S.rows[key][i] THEN S.rows[key][i][c] ELSE Default(cat.t[key].c[c])]]
(* ... and what an adversary makes of it. *)
Damage(s) == {s, <<>>} \cup (IF s = <<>> THEN {} ELSE {Tail(s), s \o <<s[1]>>, [s EXCEPT ![1] = [c \in DOMAIN s[1] |-> IF c = "id" THEN s[1][c] ELSE "NULL"]], <<s[Len(s)]>> \o SubSeq(s, 1, Len(s) - 1)})
(* damage in at most one table *)
AllRows(cat) == LET good == [k \in Tables(cat) |-> Carry(cat, k)] IN
    {good} \cup UNION {{[good EXCEPT ![k] = d] : d \in Damage(good[k])} : k \in Tables(cat)}

MergeKeep(old, new) == [o |-> old.o, c |-> old.c @@ new.c, k |-> old.k, i |-> old.i @@ new.i, ig |-> <<>>]
IdealCat(decl, drop) ==
    IF drop THEN decl
    ELSE Cat([k \in Tables(S.cat) \cup Tables(decl) |->
              IF k \notin Tables(decl) THEN S.cat.t[k] ELSE IF k \notin Tables(S.cat) THEN decl.t[k] ELSE MergeKeep(S.cat.t[k], decl.t[k])])
IdealExtra(cat) == SelectSeq(S.extra, LAMBDA e : e.kind # "trigger" \/ e.on \in Tables(cat))

Run ==
    /\ steps < MaxSteps
    /\ steps' = steps + 1
    /\ UNCHANGED <<had, trig>>
    /\ \E decl \in Cats : \E drop, dry \in BOOLEAN : \E err \in {"", "failed"} :
       \E cat \in (IF dry \/ err # "" THEN {S.cat, IdealCat(decl, drop)} ELSE Cats \cup {IdealCat(decl, drop)}) : \E rows \in AllRows(cat) :
       \E extra \in {IdealExtra(cat), <<>>} : \E chg \in {0, 1} :
         LET ev == [e |-> "auto", decl |-> decl, drop |-> drop, dry |-> dry, err |-> err, panic |-> "", chg |-> chg, printed |-> IF chg = 0 THEN "" ELSE "p",
                    sent |-> IF chg = 0 THEN "" ELSE "p", cat |-> cat, rows |-> rows, extra |-> extra]
         IN /\ Broken(S, ev) = {}
            /\ S' = Step(S, ev)
            /\ LET done == err = "" /\ ~dry IN
               /\ facts' = IF done /\ drop THEN {f \in facts : f[1] \in Tables(decl) /\ f[3] \in Cols(decl.t[f[1]])} ELSE facts
               /\ objs' = IF done /\ drop THEN objs \cap Objs(decl) ELSE objs
               /\ last' = IF dry THEN [last EXCEPT !.ok = FALSE] ELSE [drop |-> drop, ok |-> done, decl |-> decl]

MCNext == Run

(* Every value that every declared schema kept is still there. *)
RowsSurvive == \A f \in facts : f[1] \in DOMAIN S.rows /\ \E i \in DOMAIN S.rows[f[1]] : S.rows[f[1]][i]["id"] = f[2] /\ S.rows[f[1]][i][f[3]] = f[4]
(* Nothing goes that was not given up. *)
NothingDropped == objs \subseteq Objs(S.cat)
(* Success means the declared schema. *)
Converged == last.ok =>
    /\ \A k \in Tables(last.decl) : k \in Tables(S.cat) /\ Cols(last.decl.t[k]) \subseteq Cols(S.cat.t[k])
    /\ last.drop => Objs(S.cat) = Objs(last.decl) /\ \A k \in Tables(S.cat) : \A c \in Cols(S.cat.t[k]) : S.cat.t[k].c[c].b = last.decl.t[k].c[c].b
(* Unmanaged objects stay. *)
VirtualStays == had => \E i \in DOMAIN S.extra : S.extra[i].name = "fts"
TriggerStays == (trig /\ ".a" \in Tables(S.cat) /\ <<".a">> \in objs) => \E i \in DOMAIN S.extra : S.extra[i].name = "trg"

(* The obvious implementation. *)
Ideal == \A decl \in Cats : \A drop \in BOOLEAN :
    LET cat == IdealCat(decl, drop)
        rest == Was(S, [decl |-> decl, drop |-> drop])
        chg == IF rest THEN 0 ELSE 1
        ev == [e |-> "auto", decl |-> decl, drop |-> drop, dry |-> FALSE, err |-> "", panic |-> "", chg |-> chg, printed |-> "", 
               sent |-> IF S.printed = None THEN "" ELSE S.printed[1].text,
               cat |-> cat, rows |-> [k \in Tables(cat) |-> Carry(cat, k)], extra |-> IdealExtra(cat)]
    IN Broken(S, ev) = {}
=============================================================================
