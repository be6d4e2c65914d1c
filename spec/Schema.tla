------------------------------- MODULE Schema -------------------------------
(* What Postgres, MySQL and SQL Server do with the DDL of generated           *)
(* migrations, and what a generated migration owes to its user.               *)
(*                                                                            *)
(* An operation op (one action of one statement) is refused by the server for *)
(* the reasons Why(d, cat, op) and otherwise leads to Apply(d, cat, op).      *)
(* Not modelled: row contents, types of foreign key columns, privileges, the  *)
(* index MySQL makes for a foreign key, expressions over other tables.        *)
EXTENDS Catalog

PG == "postgres"
MY == "mysql"
MS == "sqlserver"

Unless(test, why) == IF test THEN {} ELSE {why}

(* ---------------------------------------------------------------- names *)

Dot(key) == CHOOSE i \in 1..Len(key) : /\ SubSeq(key, i, i) = "."
                                       /\ \A j \in 1..(i - 1) : SubSeq(key, j, j) # "."
SchemaOf(key) == SubSeq(key, 1, Dot(key) - 1)
NameOf(key) == SubSeq(key, Dot(key) + 1, Len(key))

InSchema(cat, s) == {key \in Tables(cat) : SchemaOf(key) = s}

(* Names that must differ from each other within a schema. *)
Relations(cat, s) ==
    LET ks == InSchema(cat, s) IN
    {NameOf(k) : k \in ks} \cup UNION {Idxs(cat.t[k]) \cup Of(cat.t[k], "PK") \cup Of(cat.t[k], "UQ") : k \in ks}
Constraints(cat, s) ==
    LET ks == InSchema(cat, s) IN {NameOf(k) : k \in ks} \cup UNION {Cons(cat.t[k]) : k \in ks}
ForeignKeyNames(cat, s) == UNION {Of(cat.t[k], "FK") : k \in InSchema(cat, s)}

(* A name is taken for an object of the kind (IX: index) in the table. *)
Taken(d, cat, key, n, kind) ==
    LET t == cat.t[key]
        s == SchemaOf(key)
    IN  IF d = PG
        THEN IF kind = "IX" THEN n \in Relations(cat, s)
             ELSE IF kind \in {"PK", "UQ"} THEN n \in Relations(cat, s) \cup Cons(t)
             ELSE n \in Cons(t)
        ELSE IF d = MY
        THEN IF kind \in {"IX", "UQ"} THEN n \in Idxs(t) \cup Of(t, "UQ")
             ELSE IF kind = "FK" THEN n \in ForeignKeyNames(cat, s)
             ELSE n \in Of(t, kind)
        ELSE IF kind = "IX" THEN n \in Idxs(t) \cup Of(t, "PK") \cup Of(t, "UQ")
             ELSE n \in Constraints(cat, s) \cup (IF kind \in {"PK", "UQ"} THEN Idxs(t) ELSE {})

(* ----------------------------------------------------------------- keys *)

Prefix(s, n) == IF Len(s) < n THEN {} ELSE {s[i] : i \in 1..n}

(* The objects of a table a foreign key may refer to with the columns rc:    *)
(* <<"k", name>> or <<"i", name>>.                                           *)
KeysFor(d, t, rc) ==
    IF d = MY
    THEN {<<"k", n>> : n \in {m \in Of(t, "PK") \cup Of(t, "UQ") : Prefix(t.k[m].cols, Len(rc)) = Range(rc)}}
         \cup {<<"i", n>> : n \in {m \in Idxs(t) : t.i[m].kind # "FULLTEXT" /\ Prefix(t.i[m].cols, Len(rc)) = Range(rc)}}
    ELSE {<<"k", n>> : n \in {m \in Of(t, "PK") \cup Of(t, "UQ") : Range(t.k[m].cols) = Range(rc) /\ ~t.k[m].dfr}}
         \cup {<<"i", n>> : n \in {m \in Idxs(t) : t.i[m].u /\ t.i[m].pred = "" /\ Range(t.i[m].cols) = Range(rc)}}

(* Without the objects X of the table some foreign key has nothing to refer to. *)
Needed(d, cat, key, X) ==
    \E f \in Incoming(cat, key) :
        LET rc == cat.t[f[1]].k[f[2]].rc IN
        /\ ~(f[1] = key /\ <<"k", f[2]>> \in X)
        /\ KeysFor(d, cat.t[key], rc) \cap X # {}
        /\ KeysFor(d, cat.t[key], rc) \subseteq X

(* ------------------------------------------------------------ dependents *)

Computed(t) == {n \in Cols(t) : t.c[n].gen # ""}
ComputedFrom(t, n) == {m \in Computed(t) : n \in Range(t.c[m].refs)}
ConsOn(t, n) == {m \in Cons(t) : n \in Range(t.k[m].cols) \cup Range(t.k[m].refs)}
IdxsOn(t, n) == {m \in Idxs(t) : n \in Range(t.i[m].cols) \cup Range(t.i[m].inc) \cup Range(t.i[m].refs)}
ReferredBy(cat, key, n) == {f \in Incoming(cat, key) : n \in Range(cat.t[f[1]].k[f[2]].rc)}

(* ------------------------------------------------------------- types *)

CanonType(d, b) ==
    CASE b \in {"INTEGER", "INT4"} -> "INT"
      [] b = "INT8" -> "BIGINT"
      [] b = "INT2" -> "SMALLINT"
      [] b \in {"DECIMAL", "DEC"} -> "NUMERIC"
      [] b = "CHARACTER VARYING" -> "VARCHAR"
      [] b = "CHARACTER" -> "CHAR"
      [] b = "BOOL" -> "BOOLEAN"
      [] b = "CHARACTER VARYING[]" -> "VARCHAR[]"
      [] b = "INTEGER[]" -> "INT[]"
      [] b = "INTEGER UNSIGNED" -> "INT UNSIGNED"
      [] b = "DECIMAL UNSIGNED" -> "NUMERIC UNSIGNED"
      [] d = PG /\ b = "TIMESTAMP WITH TIME ZONE" -> "TIMESTAMPTZ"
      [] d = PG /\ b = "TIMESTAMP WITHOUT TIME ZONE" -> "TIMESTAMP"
      [] OTHER -> b

SameType(d, x, y) == CanonType(d, x.b) = CanonType(d, y.b) /\ x.a = y.a

CanonDef(s) ==
    CASE s \in {"1", "TRUE", "'1'"} -> "'1'"
      [] s \in {"0", "FALSE", "'0'"} -> "'0'"
      [] s \in {"NOW()", "GETDATE()", "CURRENT_TIMESTAMP"} -> "CURRENT_TIMESTAMP"
      [] OTHER -> s

Textual(d, b) == CanonType(d, b) \in {"TEXT", "VARCHAR", "CHAR", "NVARCHAR", "NCHAR"}

DefaultCollation(d) ==
    IF d = PG THEN "en_US.utf8" ELSE IF d = MY THEN "utf8mb4_0900_ai_ci" ELSE "SQL_Latin1_General_CP1_CI_AS"
Collation(d, c) == IF ~Textual(d, c.b) THEN "" ELSE IF c.coll \in {"", "default"} THEN DefaultCollation(d) ELSE c.coll

(* ------------------------------------------------------------ operations *)

NotNulls(t, names) == [t EXCEPT !.c = [n \in DOMAIN @ |-> IF n \in names THEN [@[n] EXCEPT !.nn = TRUE] ELSE @[n]]]
SetTab(cat, key, t) == [cat EXCEPT !.t = With(@, key, t)]
SetCol(cat, key, n, c) == [cat EXCEPT !.t[key].c = With(@, n, c)]

(* The database after a table's columns, as declared, became real. *)
Settle(d, t) ==
    LET u == NotNulls(t, PKCols(t)) IN
    [u EXCEPT !.c = [n \in DOMAIN @ |-> IF @[n].id # "" \/ @[n].ai THEN [@[n] EXCEPT !.nn = TRUE] ELSE @[n]]]

DropFKs(cat, F) ==
    [cat EXCEPT !.t = [k \in DOMAIN @ |-> [@[k] EXCEPT !.k = Without(@, {f[2] : f \in {g \in F : g[1] = k}})]]]

WhyColumn(d, t, c) ==
    Unless(Range(c.refs) \subseteq Cols(t), "a generated column uses a column that does not exist")
    \cup Unless(c.gen = "" \/ c.def = "", "a generated column with a default")
    \cup Unless(c.id = "" \/ c.def = "", "an identity column with a default")

WhyConstraint(d, cat, key, n, k) ==
    LET t == cat.t[key] IN
    Unless(~Taken(d, cat, key, n, k.k), "a constraint of that name exists")
    \cup Unless(Range(k.cols) \cup Range(k.refs) \subseteq Cols(t), "a constraint on a column that does not exist")
    \cup Unless(k.k # "PK" \/ Of(t, "PK") = {}, "a second primary key")
    \cup (IF k.k # "FK" THEN {}
          ELSE IF k.rt \notin Tables(cat) THEN {"a foreign key to a table that does not exist"}
          ELSE Unless(Range(k.rc) \subseteq Cols(cat.t[k.rt]), "a foreign key to a column that does not exist")
               \cup Unless(KeysFor(d, cat.t[k.rt], k.rc) # {}, "a foreign key to columns that are no key"))
    \cup (IF d = MS /\ k.k = "PK" THEN Unless(\A c \in Range(k.cols) \cap Cols(t) : t.c[c].nn, "a primary key on a nullable column") ELSE {})

WhyIndex(d, cat, key, n, x) ==
    Unless(~Taken(d, cat, key, n, "IX"), "an index of that name exists")
    \cup Unless(Range(x.refs) \cup Range(x.inc) \subseteq Cols(cat.t[key]), "an index on a column that does not exist")
    \cup Unless(d # PG \/ x.kind \in {"", "HASH", "GIN", "GIST", "SPGIST", "BRIN"}, "an unknown kind of index")
    \cup Unless(d # MY \/ x.kind \in {"", "HASH", "FULLTEXT", "SPATIAL"}, "an unknown kind of index")

WhyCreateTable(d, cat, op) ==
    IF op.t \in Tables(cat) THEN Unless(op["if"], "the table exists")
    ELSE IF SchemaOf(op.t) \notin Range(cat.s) THEN {"a table in a schema that does not exist"}
    ELSE LET bare == SetTab(cat, op.t, [op.def EXCEPT !.k = EmptyFn, !.i = EmptyFn])
             full == SetTab(cat, op.t, Settle(d, op.def))
         IN  Unless(op.dup = <<>>, "a name used twice in one table")
             \cup Unless(d = MY \/ NameOf(op.t) \notin (IF d = PG THEN Relations(cat, SchemaOf(op.t)) ELSE Constraints(cat, SchemaOf(op.t))), "the name of the table is taken")
             \cup UNION {WhyColumn(d, op.def, op.def.c[n]) : n \in Cols(op.def)}
             \cup UNION {WhyConstraint(d, IF op.def.k[n].k = "FK" THEN [full EXCEPT !.t[op.t].k = Without(@, {n})] ELSE [bare EXCEPT !.t[op.t].c = full.t[op.t].c],
                                       op.t, n, op.def.k[n]) : n \in Cons(op.def)}
             \cup UNION {WhyIndex(d, bare, op.t, n, op.def.i[n]) : n \in Idxs(op.def)}
             \cup Unless(Cardinality(Of(op.def, "PK")) <= 1, "a second primary key")

(* The constraints and indexes that go with a column. *)
GoWith(cat, key, n) == {<<"k", m>> : m \in ConsOn(cat.t[key], n)} \cup {<<"i", m>> : m \in IdxsOn(cat.t[key], n)}

WhyDropColumn(d, cat, op) ==
    LET t == cat.t[op.t] IN
    IF op.n \notin Cols(t) THEN Unless(op["if"], "the column does not exist")
    ELSE IF d = PG
    THEN IF op.cascade THEN {}
         ELSE Unless(ComputedFrom(t, op.n) = {}, "a generated column depends on the column")
              \cup Unless(~Needed(d, cat, op.t, GoWith(cat, op.t, op.n)), "a foreign key depends on the column")
    ELSE IF d = MY
    THEN Unless({m \in ConsOn(t, op.n) : t.k[m].k = "FK"} = {}, "a foreign key has the column")
         \cup Unless(ReferredBy(cat, op.t, op.n) = {}, "a foreign key depends on the column")
    ELSE Unless(ComputedFrom(t, op.n) = {}, "a generated column depends on the column")
         \cup Unless(IdxsOn(t, op.n) = {}, "an index depends on the column")
         \cup Unless(ConsOn(t, op.n) = {} /\ ReferredBy(cat, op.t, op.n) = {}, "a constraint depends on the column")
         \cup Unless(t.c[op.n].def = "", "a default depends on the column")

Shrink(s, n) == SelectSeq(s, LAMBDA x : x # n)

AfterDropColumn(d, cat, op) ==
    LET t == cat.t[op.t]
        gone == IF op.cascade THEN {op.n} \cup ComputedFrom(t, op.n) ELSE {op.n}
        F == IF op.cascade THEN ReferredBy(cat, op.t, op.n) ELSE {}
    IN  IF op.n \notin Cols(t) THEN cat
        ELSE IF d = MY
        THEN LET ks == {m \in Cons(t) : ~(t.k[m].k \in {"PK", "UQ"} /\ Range(t.k[m].cols) = {op.n})}
                 is == {m \in Idxs(t) : Range(t.i[m].cols) # {op.n}}
             IN  SetTab(cat, op.t, [t EXCEPT !.c = Without(@, {op.n}),
                                             !.k = [m \in ks |-> [@[m] EXCEPT !.cols = Shrink(@, op.n)]],
                                             !.i = [m \in is |-> [@[m] EXCEPT !.cols = Shrink(@, op.n), !.refs = Shrink(@, op.n)]]])
        ELSE DropFKs(SetTab(cat, op.t, [t EXCEPT !.c = Without(@, gone),
                                                 !.k = Without(@, UNION {ConsOn(t, m) : m \in gone}),
                                                 !.i = Without(@, UNION {IdxsOn(t, m) : m \in gone})]),
                     F)

(* SQL Server: a longer variable-length type with the same nullability may   *)
(* be given to a column that indexes and unique keys cover.                  *)
Num(s) == CASE s = "3" -> 3 [] s = "4" -> 4 [] s = "2" -> 2 [] s = "10" -> 10 [] s = "12" -> 12 [] s = "50" -> 50 [] s = "255" -> 255 [] s = "256" -> 256 [] s = "300" -> 300 [] s = "MAX" -> 100000 [] OTHER -> 0

Widens(c, op) ==
    /\ c.b = op.b
    /\ op.b \in {"VARCHAR", "NVARCHAR", "VARBINARY"}
    /\ Len(c.a) = 1 /\ Len(op.a) = 1
    /\ Num(c.a[1]) <= Num(op.a[1])
    /\ op.a[1] # "MAX"
    /\ c.nn = op.nn
    /\ Collation(MS, c) = Collation(MS, [c EXCEPT !.coll = op.coll])

WhyAlterColumnMS(cat, op) ==
    LET t == cat.t[op.t]
        c == t.c[op.n]
        fixed == Widens(c, op)
    IN  Unless(c.gen = "", "a computed column cannot be altered")
        \cup Unless(ComputedFrom(t, op.n) = {} , "a generated column uses the column that is altered")
        \cup Unless(IdxsOn(t, op.n) = {} \/ fixed, "an index depends on the column")
        \cup Unless({m \in ConsOn(t, op.n) : t.k[m].k \in {"PK", "FK"}} = {} /\ ReferredBy(cat, op.t, op.n) = {}, "a constraint depends on the column")
        \cup Unless({m \in ConsOn(t, op.n) : t.k[m].k = "UQ"} = {} \/ fixed, "a constraint depends on the column")
        \cup Unless(c.def = "" \/ CanonType(MS, c.b) = CanonType(MS, op.b), "a default depends on the column")
        \cup Unless(c.id = "" \/ op.nn, "an identity column cannot be nullable")

WhyAlterTable(d, cat, op) ==
    LET t == cat.t[op.t]
        has == op.n \in Cols(t)
        miss == {"the column does not exist"}
    IN
    CASE op.o = "addcol" ->
           Unless(~has, "the column exists") \cup WhyColumn(d, [t EXCEPT !.c = With(@, op.n, op.col)], op.col)
           \cup Unless(d # MS \/ op.col.id = "" \/ \A n \in Cols(t) : t.c[n].id = "", "a second identity column")
      [] op.o = "dropcol" -> WhyDropColumn(d, cat, op)
      [] op.o = "altertype" ->
           IF ~has THEN miss ELSE Unless(ComputedFrom(t, op.n) = {}, "a generated column uses the column that is altered")
      [] op.o = "setdef" ->
           IF ~has THEN miss ELSE Unless(t.c[op.n].id = "", "an identity column with a default") \cup Unless(t.c[op.n].gen = "", "a generated column with a default")
      [] op.o = "dropdef" ->
           IF ~has THEN miss
           ELSE IF d = PG THEN Unless(t.c[op.n].id = "", "an identity column with a default") \cup Unless(t.c[op.n].gen = "", "a generated column with a default")
           ELSE Unless(op.exact, "the default of another table is dropped")
                \cup Unless(d = MY \/ t.c[op.n].def # "", "there is no default to drop")
      [] op.o = "adddef" ->
           IF ~has THEN miss
           ELSE Unless(t.c[op.n].def = "", "the column has a default") \cup Unless(t.c[op.n].id = "", "an identity column with a default")
                \cup Unless(t.c[op.n].gen = "", "a generated column with a default")
      [] op.o = "setnn" ->
           IF ~has THEN miss
           ELSE Unless(op.nn \/ op.n \notin PKCols(t), "a nullable column in a primary key")
                \cup Unless(op.nn \/ t.c[op.n].id = "", "an identity column cannot be nullable")
      [] op.o = "setid" ->
           IF ~has THEN miss
           ELSE IF op.id = "" THEN Unless(t.c[op.n].id # "", "the column is no identity column")
           ELSE Unless(t.c[op.n].id = "", "the column is an identity column already")
                \cup Unless(t.c[op.n].def = "", "an identity column with a default")
                \cup Unless(t.c[op.n].nn, "an identity column cannot be nullable")
      [] op.o = "modifycol" -> IF ~has THEN miss ELSE {}
      [] op.o = "altercol" -> IF ~has THEN miss ELSE WhyAlterColumnMS(cat, op)
      [] op.o = "addcon" ->
           IF op.using = "" THEN WhyConstraint(d, cat, op.t, op.n, op.k)
           ELSE IF op.using \notin Idxs(t) THEN {"there is no such index to use"}
           ELSE Unless(t.i[op.using].u /\ t.i[op.using].pred = "", "the index cannot back a constraint")
                \cup Unless(\A i \in DOMAIN t.i[op.using].desc : ~t.i[op.using].desc[i], "the index cannot back a constraint")
                \cup Unless(op.k.k # "PK" \/ Of(t, "PK") = {}, "a second primary key")
                \cup Unless(op.n = op.using \/ ~Taken(d, cat, op.t, op.n, op.k.k), "a constraint of that name exists")
      [] op.o = "dropcon" ->
           IF op.n \notin Cons(t) THEN Unless(op["if"], "the constraint does not exist")
           ELSE Unless(op.cascade \/ t.k[op.n].k \notin {"PK", "UQ"} \/ ~Needed(d, cat, op.t, {<<"k", op.n>>}), "a foreign key depends on the constraint")
      [] op.o = "altercon" ->
           IF op.n \notin Cons(t) THEN {"the constraint does not exist"}
           ELSE Unless(t.k[op.n].k = "FK", "only foreign keys can be altered") \cup Unless(op.dfr \/ ~op.idf, "initially deferred but not deferrable")
      [] op.o = "validate" ->
           IF op.n \notin Cons(t) THEN {"the constraint does not exist"}
           ELSE Unless(t.k[op.n].k \in {"FK", "CK"}, "only foreign keys and checks can be validated")
      [] op.o = "createidx" -> IF op["if"] /\ Taken(d, cat, op.t, op.n, "IX") THEN {} ELSE WhyIndex(d, cat, op.t, op.n, op.x)

(* The table of an index that is named without its table. *)
TableOfIdx(cat, s, n) == {k \in InSchema(cat, s) : n \in Idxs(cat.t[k])}
BackingCon(cat, s, n) == {k \in InSchema(cat, s) : n \in Of(cat.t[k], "PK") \cup Of(cat.t[k], "UQ")}

Why(d, cat, op) ==
    CASE op.o = "bad" -> {"the statement is not valid SQL"}
      [] op.o = "createschema" -> Unless(op["if"] \/ op.s \notin Range(cat.s), "the schema exists")
      [] op.o = "dropschema" ->
           IF op.s \notin Range(cat.s) THEN Unless(op["if"], "the schema does not exist")
           ELSE IF d = MY
           THEN Unless(\A k \in InSchema(cat, op.s) : \A f \in Incoming(cat, k) : SchemaOf(f[1]) = op.s, "a foreign key depends on the table")
           ELSE Unless(op.cascade \/ InSchema(cat, op.s) = {}, "the schema is not empty")
      [] op.o = "createtable" -> WhyCreateTable(d, cat, op)
      [] op.o = "droptable" ->
           IF op.t \notin Tables(cat) THEN Unless(op["if"], "the table does not exist")
           ELSE Unless((op.cascade /\ d = PG) \/ \A f \in Incoming(cat, op.t) : f[1] = op.t, "a foreign key depends on the table")
      [] op.o = "dropidx" ->
           IF d = PG
           THEN IF TableOfIdx(cat, op.s, op.n) # {}
                THEN UNION {Unless(~Needed(d, cat, k, {<<"i", op.n>>}), "a foreign key depends on the index") : k \in TableOfIdx(cat, op.s, op.n)}
                ELSE IF BackingCon(cat, op.s, op.n) # {} THEN {"a constraint depends on the index"}
                ELSE Unless(op["if"], "the index does not exist")
           ELSE IF op.t \notin Tables(cat) THEN {"the table does not exist"}
           ELSE LET t == cat.t[op.t] IN
                IF op.n \in Idxs(t) THEN Unless(~Needed(d, cat, op.t, {<<"i", op.n>>}), "a foreign key depends on the index")
                ELSE IF d = MY /\ op.n \in Of(t, "UQ") THEN Unless(~Needed(d, cat, op.t, {<<"k", op.n>>}), "a foreign key depends on the constraint")
                ELSE Unless(op["if"], "the index does not exist")
      [] OTHER -> IF op.t \notin Tables(cat) THEN {"the table does not exist"} ELSE WhyAlterTable(d, cat, op)

ApplyAlter(d, cat, op) ==
    LET t == cat.t[op.t]
        c == t.c[op.n]
    IN
    CASE op.o = "addcol" -> SetCol(cat, op.t, op.n, [op.col EXCEPT !.nn = @ \/ op.col.id # "" \/ op.col.ai])
      [] op.o = "dropcol" -> AfterDropColumn(d, cat, op)
      [] op.o = "altertype" -> SetCol(cat, op.t, op.n, [c EXCEPT !.b = op.b, !.a = op.a, !.coll = op.coll])
      [] op.o \in {"setdef", "adddef"} -> SetCol(cat, op.t, op.n, [c EXCEPT !.def = op.def])
      [] op.o = "dropdef" -> SetCol(cat, op.t, op.n, [c EXCEPT !.def = ""])
      [] op.o = "setnn" -> SetCol(cat, op.t, op.n, [c EXCEPT !.nn = op.nn])
      [] op.o = "setid" -> SetCol(cat, op.t, op.n, [c EXCEPT !.id = op.id])
      [] op.o = "modifycol" -> SetCol(cat, op.t, op.n, [op.col EXCEPT !.nn = @ \/ op.col.ai \/ op.n \in PKCols(t)])
      [] op.o = "altercol" -> SetCol(cat, op.t, op.n, [c EXCEPT !.b = op.b, !.a = op.a, !.coll = op.coll, !.nn = op.nn])
      [] op.o = "addcon" ->
           LET k == IF op.using = "" THEN op.k ELSE [op.k EXCEPT !.cols = t.i[op.using].cols]
               u == [t EXCEPT !.k = With(@, op.n, k), !.i = Without(@, {op.using})]
           IN  SetTab(cat, op.t, IF k.k = "PK" THEN NotNulls(u, Range(k.cols)) ELSE u)
      [] op.o = "dropcon" ->
           LET cut == [cat EXCEPT !.t[op.t].k = Without(@, {op.n})] IN
           IF op.cascade /\ op.n \in Cons(t) /\ t.k[op.n].k \in {"PK", "UQ"}
           THEN DropFKs(cut, {f \in Incoming(cat, op.t) : KeysFor(d, cut.t[op.t], cat.t[f[1]].k[f[2]].rc) = {}}) ELSE cut
      [] op.o = "altercon" -> [cat EXCEPT !.t[op.t].k[op.n].dfr = op.dfr, !.t[op.t].k[op.n].idf = op.idf]
      [] op.o = "validate" -> [cat EXCEPT !.t[op.t].k[op.n].nv = FALSE]
      [] op.o = "createidx" -> IF Taken(d, cat, op.t, op.n, "IX") THEN cat ELSE [cat EXCEPT !.t[op.t].i = With(@, op.n, op.x)]

DropTables(cat, K) ==
    DropFKs([cat EXCEPT !.t = Without(@, K)], {f \in UNION {Incoming(cat, k) : k \in K} : f[1] \notin K})

Apply(d, cat, op) ==
    CASE op.o = "createschema" -> IF op.s \in Range(cat.s) THEN cat ELSE [cat EXCEPT !.s = Append(@, op.s)]
      [] op.o = "dropschema" -> [DropTables(cat, InSchema(cat, op.s)) EXCEPT !.s = Shrink(@, op.s)]
      [] op.o = "createtable" -> IF op.t \in Tables(cat) THEN cat ELSE SetTab(cat, op.t, Settle(d, op.def))
      [] op.o = "droptable" -> DropTables(cat, {op.t})
      [] op.o = "dropidx" ->
           LET ks == IF d = PG THEN TableOfIdx(cat, op.s, op.n) ELSE {op.t}
           IN  [cat EXCEPT !.t = [k \in DOMAIN @ |-> IF k \notin ks THEN @[k]
                                                     ELSE [@[k] EXCEPT !.i = Without(@, {op.n}), !.k = IF d = MY THEN Without(@, {op.n}) ELSE @]]]
      [] OTHER -> ApplyAlter(d, cat, op)

(* One statement.  The actions of a MySQL ALTER TABLE take effect together:  *)
(* what goes goes first.                                                     *)
Rank(op) == CASE op.o \in {"dropcon", "dropidx", "dropcol"} -> 1
              [] op.o = "addcol" -> 2
              [] op.o \in {"modifycol", "setdef", "dropdef"} -> 3
              [] OTHER -> 4

Arranged(d, ops) ==
    IF d # MY \/ Len(ops) < 2 THEN ops
    ELSE LET r(n) == SelectSeq(ops, LAMBDA op : Rank(op) = n) IN r(1) \o r(2) \o r(3) \o r(4)

RECURSIVE Run(_, _, _)
Run(d, cat, ops) ==
    IF ops = <<>> THEN [cat |-> cat, why |-> {}]
    ELSE LET w == Why(d, cat, Head(ops)) IN
         IF w # {} THEN [cat |-> cat, why |-> w] ELSE Run(d, Apply(d, cat, Head(ops)), Tail(ops))

(* What MySQL checks when the whole statement has been read. *)
WhyTable(t) ==
    Unless(\A n \in Computed(t) : Range(t.c[n].refs) \subseteq Cols(t), "a generated column depends on the column")
    \cup Unless(\A n \in Cols(t) : t.c[n].ai => \/ \E m \in Of(t, "PK") \cup Of(t, "UQ") : t.k[m].cols[1] = n
                                                \/ \E m \in Idxs(t) : t.i[m].cols[1] = n, "an AUTO_INCREMENT column that is no key")

Exec(d, cat, ops) ==
    LET r == Run(d, cat, Arranged(d, ops)) IN
    IF r.why # {} \/ d # MY THEN r
    ELSE [r EXCEPT !.why = UNION {WhyTable(r.cat.t[k]) : k \in {op.t : op \in {o \in Range(ops) : "t" \in DOMAIN o}} \cap Tables(r.cat)}]

(* --------------------------------------------------------- the declared schema *)

Kept(t) == [t EXCEPT !.k = Without(@, Range(t.ig)), !.i = Without(@, Range(t.ig))]

(* A schema as the database holds it. *)
Real(d, cat) == [cat EXCEPT !.t = [k \in DOMAIN @ |-> Settle(d, @[k])]]

ColumnDiff(d, x, want, isnew) ==
    Unless(SameType(d, x, want), "type")
    \cup Unless(x.nn = want.nn, IF ~isnew /\ want.nn THEN "missing NOT NULL" ELSE "nullability")
    \cup Unless(CanonDef(x.def) = CanonDef(want.def), "default")
    \cup Unless(Collation(d, x) = Collation(d, want), "collation")
    \cup (IF isnew THEN Unless(x.id = want.id /\ x.ai = want.ai, "identity") \cup Unless(x.gen = want.gen, "expression")
          ELSE IF d = PG THEN Unless((x.id = "") = (want.id = ""), "identity") ELSE {})

ConsDiff(x, want) == [x EXCEPT !.refs = <<>>] # [want EXCEPT !.refs = <<>>]
IdxDiff(x, want) == [x EXCEPT !.refs = <<>>] # [want EXCEPT !.refs = <<>>]

(* A default that is replaced by another one is only compared when both are  *)
(* literals: Postgres reports expressions in its own spelling.               *)
Literal(s) == s = "" \/ SubSeq(s, 1, 1) \in {"'", "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "-"} \/ s \in {"TRUE", "FALSE"}
DefaultOpen(d, old, new) == d = PG /\ old # "" /\ new # "" /\ ~(Literal(old) /\ Literal(new))

TableDiff(d, src, x, want, isnew, drop) ==
    LET w == Settle(d, Kept(want))
        repl == IF isnew THEN {} ELSE IF Of(w, "PK") # {} /\ Of(w, "PK") # Of(src, "PK") THEN Of(src, "PK") ELSE {}
        cols == IF isnew \/ drop THEN Cols(w) ELSE Cols(w) \cup Cols(src)
        cons == IF isnew \/ drop THEN Cons(w) ELSE (Cons(w) \cup Cons(src)) \ (repl \ Cons(w))
        idxs == IF isnew \/ drop THEN Idxs(w) ELSE Idxs(w) \cup Idxs(src)
        named(kind) == {n \in Cons(x) : x.k[n].k \in kind}
    IN
    Unless(Cols(x) = cols, "the columns of a table")
    \cup Unless({n \in cons : \A kk \in {"CK"} : (n \in Cons(x) => x.k[n].k # kk) } = named({"PK", "UQ", "FK"}), "the constraints of a table")
    \cup Unless(Idxs(x) = idxs, "the indexes of a table")
    \cup UNION {LET fresh == isnew \/ n \notin Cols(src)
                    diff == ColumnDiff(d, x.c[n], w.c[n], fresh)
                    real == IF ~fresh /\ DefaultOpen(d, src.c[n].def, w.c[n].def) THEN diff \ {"default"} ELSE diff
                IN  {"the " \o f \o " of a column" : f \in real} : n \in Cols(w) \cap Cols(x)}
    \cup UNION {IF isnew \/ n \notin Cons(src)
                THEN Unless(~ConsDiff(x.k[n], w.k[n]), "the definition of a constraint")
                ELSE Unless(d # PG \/ x.k[n].k # "FK" \/ <<x.k[n].dfr, x.k[n].idf>> = <<w.k[n].dfr, w.k[n].idf>>, "the deferrability of a foreign key")
                     \cup Unless(d # MY \/ x.k[n].k # "PK" \/ x.k[n].cols = w.k[n].cols, "the definition of a constraint")
                     \cup Unless(x.k[n].cols \in {src.k[n].cols, w.k[n].cols}, "the definition of a constraint")
                : n \in Cons(w) \cap Cons(x)}
    \cup UNION {IF isnew \/ n \notin Idxs(src)
                THEN Unless(~IdxDiff(x.i[n], w.i[n]), "the definition of an index")
                ELSE Unless(~IdxDiff(x.i[n], w.i[n]) \/ ~IdxDiff(x.i[n], src.i[n]), "the definition of an index")
                : n \in Idxs(w) \cap Idxs(x)}

(* How the schema reached differs from the one owed. *)
Diff(S) ==
    LET d == S.d
        want == IF S.drop THEN Range(S.decl.s) ELSE Range(S.decl.s) \cup Range(S.src.s)
        tabs == IF S.drop THEN Tables(S.decl) ELSE Tables(S.decl) \cup Tables(S.src)
    IN  Unless(Range(S.cat.s) = want, "the schemas")
        \cup Unless(Tables(S.cat) = tabs, "the tables")
        \cup UNION {LET isnew == key \notin Tables(S.src) IN
                    TableDiff(d, IF isnew THEN S.decl.t[key] ELSE S.src.t[key], S.cat.t[key], S.decl.t[key], isnew, S.drop)
                    : key \in Tables(S.decl) \cap Tables(S.cat)}

(* A column changes in a way that generated columns that use it do not mind. *)
Unmoved(d, x, y) == ColumnDiff(d, x, y, FALSE) \cap (IF d = MS THEN {"type", "collation", "nullability", "missing NOT NULL"} ELSE {"type", "collation"}) = {}

(* Some declared schemas cannot be reached: SQL Server cannot take the        *)
(* identity from a column, and without permission to drop what stays may      *)
(* contradict what is declared.                                               *)
Attainable(S) ==
    \A k \in Tables(S.src) \cap Tables(S.decl) :
        LET a == S.src.t[k]
            w == Kept(S.decl.t[k])
            both == Cols(a) \cap Cols(w)
            newpk == Of(w, "PK") # {} /\ (IF S.d = MY THEN PKCols(w) # PKCols(a) ELSE Of(w, "PK") # Of(a, "PK"))
        IN  /\ (S.d = MS => \A n \in both : a.c[n].id # "" => w.c[n].id # "")
            /\ (~S.drop =>
                  (* a primary key that stays on a column declared nullable *)
                  /\ (Of(w, "PK") = {} => \A n \in PKCols(a) \cap both : w.c[n].nn)
                  (* a primary key is replaced that a foreign key needs *)
                  /\ (newpk => \A p \in Of(a, "PK") : ~Needed(S.d, S.src, k, {<<"k", p>>}))
                  (* something that stays depends on a column that changes *)
                  /\ \A n \in both : ComputedFrom(a, n) \ Cols(w) = {} \/ Unmoved(S.d, a.c[n], Settle(S.d, w).c[n])
                  /\ (S.d = PG \/ PKCols(a) = PKCols(w) \/ \A n \in Cols(a) : ~a.c[n].ai /\ (n \in both => ~w.c[n].ai)))

(* The keys of the table that are not there any more, or cover other columns, *)
(* in the declared schema.                                                    *)
Replaced(d, a, w) ==
    {<<"k", n>> : n \in {m \in Of(a, "PK") \cup Of(a, "UQ") : m \notin Cons(w) \/ a.k[m].cols # w.k[m].cols}}
    \cup {<<"i", n>> : n \in Idxs(a) \ Idxs(w)}

(* What generated migrations are known not to manage. *)
Beyond(S) ==
    LET d == S.d
        old == Tables(S.src) \cap Tables(S.decl)
        w(k) == Kept(S.decl.t[k])
        a(k) == S.src.t[k]
        both(k) == Cols(a(k)) \cap Cols(w(k))
        stays(f) == f[1] \in old /\ (~S.drop \/ f[2] \in Cons(w(f[1])))
    IN  Unless(\A k \in old : \A n \in both(k) : a(k).c[n].gen = w(k).c[n].gen, "the expression of a generated column")
        \cup Unless(d = MY \/ \A k \in old : \A n \in both(k) : ComputedFrom(w(k), n) \cup (IF S.drop THEN {} ELSE ComputedFrom(a(k), n)) = {} \/
                        (IF d = MS THEN ColumnDiff(d, a(k).c[n], Settle(d, w(k)).c[n], FALSE) = {} ELSE Unmoved(d, a(k).c[n], Settle(d, w(k)).c[n])),
                     "a column that a generated column uses")
        \cup Unless(\A k \in old : \A n \in Of(a(k), "FK") \cap Cons(w(k)) : w(k).k[n].k = "FK" /\ <<a(k).k[n].rt, a(k).k[n].rc, a(k).k[n].cols>> = <<w(k).k[n].rt, w(k).k[n].rc, w(k).k[n].cols>>,
                     "a foreign key that keeps its name")
        \cup Unless(\A k \in old : /\ \A n \in Cons(a(k)) \cap Cons(w(k)) : Range(a(k).k[n].cols) \subseteq Cols(w(k))
                                   /\ \A n \in Idxs(a(k)) \cap Idxs(w(k)) : Range(a(k).i[n].refs) \subseteq Cols(w(k)),
                     "a key or index that keeps its name and loses a column")
        \cup Unless(\A k \in old : \A f \in Incoming(S.src, k) :
                        LET keys == KeysFor(d, a(k), S.src.t[f[1]].k[f[2]].rc) IN
                        stays(f) => keys = {} \/ ~(keys \subseteq Replaced(d, a(k), w(k))),
                     "a key that a foreign key refers to")

(* ------------------------------------------------------------- warnings *)

Scale(a) == IF Len(a) = 2 THEN a[2] ELSE "0"

(* A type change that keeps every value and rewrites no row. *)
SafeType(d, x, y) ==
    LET b == CanonType(d, x.b)
        e == CanonType(d, y.b)
    IN  IF d = PG
        THEN CASE b = "CIDR" /\ e = "INET" -> TRUE
               [] b = "VARCHAR" /\ e = "TEXT" -> TRUE
               [] b = "TEXT" /\ e = "VARCHAR" -> y.a = <<>>
               [] b = "VARCHAR" /\ e = "VARCHAR" -> y.a = <<>> \/ (x.a # <<>> /\ Num(x.a[1]) <= Num(y.a[1]))
               [] b = "NUMERIC" /\ e = "NUMERIC" -> y.a = <<>> \/ (x.a # <<>> /\ Scale(x.a) = Scale(y.a) /\ Num(x.a[1]) <= Num(y.a[1]))
               [] OTHER -> FALSE
        ELSE IF d = MY /\ b = "VARCHAR" /\ e = "VARCHAR"
        THEN (Num(x.a[1]) > 255) = (Num(y.a[1]) > 255)
        ELSE FALSE

(* A type change nobody has to announce and nobody is blamed for announcing:  *)
(* a shorter VARCHAR of MySQL (the server refuses it when a value is longer). *)
OpenType(d, x, y) ==
    d = MY /\ SafeType(d, x, y) /\ Num(x.a[1]) > Num(y.a[1])

(* A change that has to be announced; when open, one that may be announced.  *)
Unsafe(S, open) ==
    LET d == S.d
        old == Tables(S.src) \cap Tables(S.decl)
        both(k) == Cols(S.src.t[k]) \cap Cols(S.decl.t[k])
        new(k) == Cols(S.decl.t[k]) \ Cols(S.src.t[k])
        x(k, n) == Real(d, S.src).t[k].c[n]
        y(k, n) == Settle(d, Kept(S.decl.t[k])).c[n]
        pk(k) == PKCols(Kept(S.decl.t[k]))
    IN  \/ \E k \in old : \E n \in both(k) : /\ ~SameType(d, x(k, n), y(k, n))
                                            /\ (open \/ (x(k, n).gen = "" /\ y(k, n).gen = ""))
                                            /\ (~SafeType(d, x(k, n), y(k, n)) \/ (open /\ OpenType(d, x(k, n), y(k, n))))
        \/ d = PG /\ S.ver < 12 /\ \E k \in old : \E n \in both(k) : ~x(k, n).nn /\ y(k, n).nn /\ (open \/ n \notin pk(k))
        \/ d = PG /\ S.ver < 11 /\ \E k \in old : \E n \in new(k) : y(k, n).def # "" \/ y(k, n).id # ""
        \/ d = MS /\ \E k \in old : \E n \in both(k) : x(k, n).id = "" /\ y(k, n).id # ""

(* ---------------------------------------------------------------- monitor *)

None == [d |-> ""]

NoFile == [name |-> "", kind |-> "", stmts |-> 0, undo |-> <<>>, hasundo |-> FALSE, made |-> {}]

(* What a statement makes that an undo file has to remove. *)
Makes(d, cat, ops) ==
    {<<"s", op.s, "">> : op \in {o \in Range(ops) : o.o = "createschema" /\ o.s \notin Range(cat.s)}}
    \cup {<<"t", op.t, "">> : op \in {o \in Range(ops) : o.o = "createtable"}}
    \cup {<<"i", SchemaOf(op.t), op.n>> : op \in {o \in Range(ops) : o.o = "createidx" /\ o.conc}}
Unmakes(ops) ==
    {<<"s", op.s, "">> : op \in {o \in Range(ops) : o.o = "dropschema"}}
    \cup {<<"t", op.t, "">> : op \in {o \in Range(ops) : o.o = "droptable"}}
    \cup {<<"i", op.s, op.n>> : op \in {o \in Range(ops) : o.o = "dropidx"}}

Removes == {"dropschema", "droptable", "dropcol"}

(* Existing things that the declared schema keeps and that a removal takes away. *)
Loses(S, op) ==
    CASE op.o = "dropschema" -> op.s \in Range(S.src.s) /\ (~S.drop \/ op.s \in Range(S.decl.s))
      [] op.o = "droptable" -> op.t \in Tables(S.src) /\ (~S.drop \/ op.t \in Tables(S.decl))
      [] op.o = "dropcol" -> op.t \in Tables(S.src) /\ op.n \in Cols(S.src.t[op.t])
                             /\ (~S.drop \/ (op.t \in Tables(S.decl) /\ op.n \in Cols(S.decl.t[op.t])))
      [] OTHER -> FALSE

(* Without permission to drop: everything there was is still there, apart    *)
(* from a primary key that another one replaces.                             *)
Gone(S) ==
    LET src == S.src cat == S.cat IN
    IF S.drop THEN {}
    ELSE Unless(Range(src.s) \subseteq Range(cat.s), "a schema")
         \cup Unless(Tables(src) \subseteq Tables(cat), "a table")
         \cup UNION {LET a == src.t[k]
                         b == cat.t[k]
                         newpk == k \in Tables(S.decl) /\ Of(Kept(S.decl.t[k]), "PK") # {}
                     IN  Unless(Cols(a) \subseteq Cols(b), "a column")
                         \cup Unless(\A n \in Cons(a) : n \in Cons(b) \/ (a.k[n].k = "PK" /\ newpk), "a constraint")
                         \cup Unless(Idxs(a) \subseteq Idxs(b), "an index")
                     : k \in Tables(src) \cap Tables(cat)}

(* Altering a column of SQL Server without saying NOT NULL makes it nullable. *)
MadeNullable(S, ops) ==
    \E op \in Range(ops) : /\ op.o = "altercol"
                          /\ ~op.nn
                          /\ op.t \in Tables(S.decl)
                          /\ op.n \in Cols(S.decl.t[op.t])
                          /\ Settle(S.d, Kept(S.decl.t[op.t])).c[op.n].nn

Tag(p, pre, S) == {<<p, pre \o s>> : s \in S}

(* What is broken where reaching the declared schema is possible, or why not. *)
Owed(S, B) ==
    IF B = {} \/ ~S.reach THEN {}
    ELSE IF Beyond(S) # {} THEN Tag("C10", S.d \o ": not migrated: ", Beyond(S)) ELSE B

BrokenStmt(S, ev) ==
    LET d == S.d
        f == S.file
        r == Exec(d, S.cat, ev.ops)
        ops == Range(ev.ops)
        conc == \E op \in ops : op.o \in {"createidx", "dropidx"} /\ "conc" \in DOMAIN op /\ op.conc
        onOld == {op \in ops : op.o = "createidx" /\ op.t \in Tables(S.src)}
        fks == {op \in ops : op.o = "addcon" /\ op.k.k = "FK" /\ op.t \in Tables(S.src)}
    IN  (IF S.reach /\ MadeNullable(S, ev.ops) THEN {<<"C10", S.d \o ": a column declared NOT NULL is altered to be nullable">>} ELSE {})
        \cup Owed(S, Tag("C10", S.d \o ": a statement fails: ", r.why))
        \cup {<<"C11", "a statement removes something that is to stay: " \o op.o>> : op \in {o \in ops : Loses(S, o)}}
        \cup (IF conc /\ f.kind # "txoff" THEN {<<"C13", "a statement that cannot run in a transaction is in a transactional file">>} ELSE {})
        \cup (IF conc /\ f.stmts # 1 THEN {<<"C13", "a non-transactional statement shares its file">>} ELSE {})
        \cup (IF ~conc /\ f.kind = "txoff" THEN {<<"C13", "an ordinary statement is in a non-transactional file">>} ELSE {})
        \cup (IF d = PG /\ \E op \in onOld : ~op.conc THEN {<<"C13", "an index of an existing table is built with the table locked">>} ELSE {})
        \cup (IF d = PG /\ \E op \in fks : ~op.k.nv THEN {<<"C13", "a foreign key of an existing table is validated while it is added">>} ELSE {})
        \cup (IF d = PG /\ \E op \in ops : op.o = "validate" /\ <<op.t, op.n>> \in S.added THEN {<<"C13", "a constraint is validated in the file that adds it">>} ELSE {})

(* The file that ends here. *)
BrokenFile(S) ==
    LET f == S.file
        undone == Unmakes(f.undo)
    IN  IF f.name = "" THEN {}
        ELSE (IF f.made # {} /\ (f.kind = "txoff" \/ S.d = MY) /\ ~f.hasundo THEN {<<"C13", "no undo file for what is not rolled back">>} ELSE {})
             \cup (IF f.hasundo /\ undone # f.made THEN {<<"C13", "an undo file does not remove exactly what its file makes">>} ELSE {})
             \cup (IF f.hasundo /\ \E op \in Range(f.undo) : op.o \notin {"dropschema", "droptable", "dropidx"} THEN {<<"C13", "an undo file does more than remove">>} ELSE {})
             \cup (IF f.hasundo /\ \E op \in Range(f.undo) : op.o \in {"dropschema", "droptable", "dropidx"} /\ ~op["if"] THEN {<<"C13", "an undo file fails when there is nothing to remove">>} ELSE {})

StmtStep(S, ev) ==
    IF S.failed THEN [S EXCEPT !.file.made = @ \cup Makes(S.d, S.cat, ev.ops)]
    ELSE LET r == Exec(S.d, S.cat, ev.ops) IN
         [S EXCEPT !.cat = r.cat, !.failed = r.why # {} \/ MadeNullable(S, ev.ops),
                   !.file.made = @ \cup Makes(S.d, S.cat, ev.ops),
                   !.added = @ \cup {<<op.t, op.n>> : op \in {o \in Range(ev.ops) : o.o = "addcon"}}]

(* An auto-migration executes its statements one after the other; how they    *)
(* are distributed over files does not matter.                                *)
AtSource(S) == [S EXCEPT !.cat = S.src, !.failed = FALSE, !.file = NoFile, !.added = {}]
(* A schema with nothing in it is not seen in a database. *)
Unseen(S) == IF Range(S.src.s) \subseteq {SchemaOf(k) : k \in Tables(S.src)} \cup Range(S.decl.s) THEN {} ELSE {"the schemas"}
RECURSIVE Played(_, _)
Played(S, stmts) ==
    IF S.failed THEN {}
    ELSE IF stmts = <<>> THEN Owed(S, Tag("C10", S.d \o ": the schema reached differs in ", Diff(S) \ Unseen(S))) \cup Tag("C11", "without permission to drop there is missing ", Gone(S))
    ELSE LET ev == [e |-> "stmt", ops |-> Head(stmts)] IN
         {b \in BrokenStmt(S, ev) : b[1] # "C13"} \cup Played(StmtStep(S, ev), Tail(stmts))

(* Creating a schema unless it exists: schemas without objects are not seen,  *)
(* so this may be repeated.                                                   *)
NoEffect(op) == IF op.o = "createschema" THEN op.if ELSE FALSE

Conc(op) == IF op.o \in {"createidx", "dropidx"} /\ "conc" \in DOMAIN op THEN op.conc ELSE FALSE

(* An auto-migration that is previewed, run, or run with its warnings accepted. *)
BrokenAuto(S, ev) ==
    IF ev.crashed THEN {<<"C10", S.d \o ": auto-migrating crashes">>}
    ELSE IF ev.dry
    THEN (IF ev.err # "" THEN {<<"C12", "the dry run of an auto-migration fails">>} ELSE {})
         \cup (IF ev.stmts # <<>> THEN {<<"C12", "the dry run of an auto-migration executes something">>} ELSE {})
    ELSE IF ~ev.accept /\ (Unsafe(S, FALSE) \/ (Unsafe(S, TRUE) /\ ev.err # ""))
    THEN (IF ev.err = "" THEN {<<"C12", "auto-migrating ignores warnings that were not accepted">>} ELSE {})
         \cup (IF ev.stmts # <<>> THEN {<<"C12", "an auto-migration that is refused executes something">>} ELSE {})
    ELSE (IF ev.err # "" THEN {<<"C10", S.d \o ": auto-migrating fails">>} \cup (IF ev.accept THEN {<<"C12", "accepted warnings block an auto-migration">>} ELSE {}) ELSE {})
         \cup (IF ~ev.previewed THEN {<<"C12", "the dry run of an auto-migration prints something else than what is executed">>} ELSE {})
         \cup (IF ev.err # "" THEN {} ELSE Played(AtSource(S), ev.stmts))
         \cup (IF \E i \in DOMAIN ev.stmts : ev.tx[i] /\ \E k \in DOMAIN ev.stmts[i] : Conc(ev.stmts[i][k])
               THEN {<<"C10", S.d \o ": an auto-migration executes a statement in a transaction that cannot run in one">>} ELSE {})

Broken(S, ev) ==
    CASE ev.e = "start" -> {}
      [] ev.e = "auto" -> BrokenAuto(S, ev)
      [] ev.e = "autoagain" ->
           IF ev.crashed \/ ev.err # "" THEN {<<"C10", S.d \o ": auto-migrating again fails">>}
           ELSE IF \E i \in DOMAIN ev.stmts : \E k \in DOMAIN ev.stmts[i] : ~NoEffect(ev.stmts[i][k])
                THEN {<<"C10", S.d \o ": auto-migrating again from the declared schema does something">>} ELSE {}
      [] ev.e = "plan" ->
           (IF ev.crashed THEN {<<"C10", S.d \o ": generating crashes">>} ELSE IF ev.err # "" THEN {<<"C10", S.d \o ": generating fails">>} ELSE {})
           \cup (IF ~ev.crashed /\ ev.err = "" /\ Unsafe(S, FALSE) /\ ~ev.warned THEN {<<"C12", "an unsafe change is not announced">>} ELSE {})
           \cup (IF ~ev.crashed /\ ev.err = "" /\ ~Unsafe(S, TRUE) /\ ev.warned THEN {<<"C12", "a warning without an unsafe change">>} ELSE {})
      [] ev.e = "dry" ->
           (IF ev.crashed THEN {<<"C12", "a dry run crashes">>} ELSE IF ev.err # "" THEN {<<"C12", "a dry run fails">>} ELSE {})
           \cup (IF ev.files > 0 THEN {<<"C12", "a dry run writes files">>} ELSE {})
      [] ev.e = "gen" ->
           IF ev.crashed THEN {<<"C10", S.d \o ": generating crashes">>}
           ELSE IF S.warned /\ ~ev.accept
           THEN (IF ev.err = "" THEN {<<"C12", "warnings that were not accepted are no error">>} ELSE {})
                \cup (IF ev.files > 0 THEN {<<"C12", "files are written although there are warnings">>} ELSE {})
           ELSE IF ev.err # "" THEN {<<"C10", S.d \o ": generating fails">>} \cup (IF ev.accept THEN {<<"C12", "accepted warnings block">>} ELSE {}) ELSE {}
      [] ev.e = "file" ->
           BrokenFile(S)
           \cup (IF ~ev.named THEN {<<"C13", "a file without the prefix">>} ELSE {})
      [] ev.e = "stmt" -> IF S.failed THEN {} ELSE BrokenStmt(S, ev)
      [] ev.e = "end" ->
           BrokenFile(S)
           \cup (IF ev.strayundo > 0 THEN {<<"C13", "an undo file that belongs to no file">>} ELSE {})
           \cup (IF ~ev.previewed THEN {<<"C12", "a dry run prints something else than what is generated">>, <<"C13", "the files do not sort in the order in which they are printed">>} ELSE {})
           \cup (IF S.failed THEN {} ELSE Owed(S, Tag("C10", S.d \o ": the schema reached differs in ", Diff(S))) \cup Tag("C11", "without permission to drop there is missing ", Gone(S)))
      [] ev.e = "again" ->
           IF ev.crashed \/ ev.err # "" THEN {<<"C10", S.d \o ": generating again fails">>}
           ELSE IF ev.files > 0 THEN {<<"C10", S.d \o ": generating again from the declared schema yields something">>} ELSE {}
      [] OTHER -> {}

Step(S, ev) ==
    CASE ev.e = "start" ->
           LET c == Real(ev.d, ev.cat) IN
           [d |-> ev.d, ver |-> ev.ver, src |-> c, cat |-> c, decl |-> ev.decl, drop |-> ev.drop,
            reach |-> Attainable([d |-> ev.d, src |-> c, decl |-> ev.decl, drop |-> ev.drop]), warned |-> FALSE, failed |-> FALSE, file |-> NoFile, added |-> {}]
      [] ev.e = "plan" -> [S EXCEPT !.warned = ev.warned]
      [] ev.e = "file" ->
           [S EXCEPT !.file = [name |-> ev.name, kind |-> ev.kind, stmts |-> ev.stmts, undo |-> ev.undo, hasundo |-> ev.hasundo, made |-> {}], !.added = {}]
      [] ev.e = "stmt" -> StmtStep(S, ev)
      [] OTHER -> S
=============================================================================
