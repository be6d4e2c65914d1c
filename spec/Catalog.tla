------------------------------ MODULE Catalog ------------------------------
(* Database catalogs as values, shared by the specifications of schema       *)
(* changes.                                                                  *)
(*                                                                           *)
(* A catalog is [s: sequence of schema names, t: table key -> table].  A     *)
(* table is [o: column order, c: name -> column, k: name -> constraint,      *)
(* i: name -> index, ig: names declared for other dialects only].            *)
(*   column      [b: base type, a: type arguments, nn, def, id, coll, gen, ai]*)
(*   constraint  [k: "PK"|"UQ"|"FK"|"CK", cols, rt, rc, upd, del, dfr, idf,  *)
(*                nv: not validated, expr]                                   *)
(*   index       [u, cols, desc, pred, inc, kind]                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Range(s) == {s[i] : i \in DOMAIN s}

Tables(c) == DOMAIN c.t
Cols(t) == DOMAIN t.c
Cons(t) == DOMAIN t.k
Idxs(t) == DOMAIN t.i

(* The constraints of one kind. *)
Of(t, kind) == {n \in Cons(t) : t.k[n].k = kind}

PKCols(t) == UNION {Range(t.k[n].cols) : n \in Of(t, "PK")}

(* The column sets that rows of the table are unique in. *)
KeySets(t) == {Range(t.k[n].cols) : n \in Of(t, "PK") \cup Of(t, "UQ")}
UniqueSets(t) == KeySets(t) \cup {Range(t.i[n].cols) : n \in {m \in Idxs(t) : t.i[m].u}}

(* Foreign keys of the catalog that refer to a table: <<table, name>>. *)
Incoming(c, key) ==
    UNION {{<<k, n>> : n \in {m \in Of(c.t[k], "FK") : c.t[k].k[m].rt = key}} : k \in Tables(c)}

EmptyFn == [x \in {} |-> x]

(* f without the names in S. *)
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
(* f with f[x] = v. *)
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

SeqFilter(s, Test(_)) == SelectSeq(s, Test)

(* Two catalogs that agree on all of the tables K. *)
SameTables(c1, c2, K) ==
    \A k \in K : (k \in Tables(c1)) = (k \in Tables(c2)) /\ (k \in Tables(c1) => c1.t[k] = c2.t[k])

(* Every foreign key refers to a key of an existing table, with columns that *)
(* exist: what a declared schema must satisfy to be meaningful.              *)
WellFormed(c) ==
    \A key \in Tables(c) : LET t == c.t[key] IN
        /\ \A n \in Cons(t) : Range(t.k[n].cols) \subseteq Cols(t)
        /\ \A n \in Idxs(t) : Range(t.i[n].cols) \cup Range(t.i[n].inc) \subseteq Cols(t)
        /\ \A n \in Of(t, "FK") :
              /\ t.k[n].rt \in Tables(c)
              /\ Range(t.k[n].rc) \in KeySets(c.t[t.k[n].rt])
        /\ Cardinality(Of(t, "PK")) <= 1
=============================================================================
