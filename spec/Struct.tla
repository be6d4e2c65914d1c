------------------------------- MODULE Struct -------------------------------
(* What struct declarations mean to a dialect, and what generated struct      *)
(* declarations have to mean.                                                 *)
(*                                                                            *)
(* A declaration is a struct that stands for a table: its name and items in   *)
(* order. An item is a column (field type and tag) or stands for the table.   *)
(* The meaning of a declaration is a table: columns in order, constraints and *)
(* indexes, of which only what applies to the dialect is there. Modifiers     *)
(* take effect from left to right; "dialect" restricts what it stands in and  *)
(* the modifiers after it.                                                    *)
(*                                                                            *)
(* Tables: [schema, name, virtual, cols, cons, idx]                           *)
(* Columns: [name, type, notnull, default, identity, auto, onupdate, collate, *)
(*           generated]                                                       *)
(* Constraints: [kind, name, cols, rs, rt, rc, upd, del, dfr, dfd]            *)
(* Indexes: [name, cols, unique, using]                                       *)
EXTENDS Tags, FiniteSets

None == [e |-> "none"]
Step(S, ev) == S

Dialects == {"sqlite", "postgres", "mysql", "sqlserver"}

DefaultType(d, f) ==
    CASE f = "sq.NumberField" -> "INT"
      [] f \in {"sq.StringField", "sq.EnumField"} -> CASE d = "mysql" -> "VARCHAR(255)" [] d = "sqlserver" -> "NVARCHAR(255)" [] OTHER -> "TEXT"
      [] f = "sq.TimeField" -> CASE d = "postgres" -> "TIMESTAMPTZ" [] d = "sqlserver" -> "DATETIMEOFFSET" [] OTHER -> "DATETIME"
      [] f = "sq.BooleanField" -> IF d = "sqlserver" THEN "BIT" ELSE "BOOLEAN"
      [] f = "sq.BinaryField" -> CASE d = "sqlite" -> "BLOB" [] d = "postgres" -> "BYTEA" [] d = "mysql" -> "MEDIUMBLOB" [] OTHER -> "VARBINARY(MAX)"
      [] f = "sq.ArrayField" -> CASE d = "postgres" -> "TEXT[]" [] d = "sqlserver" -> "NVARCHAR(MAX)" [] OTHER -> "JSON"
      [] f = "sq.JSONField" -> CASE d = "postgres" -> "JSONB" [] d = "sqlserver" -> "NVARCHAR(MAX)" [] OTHER -> "JSON"
      [] f = "sq.UUIDField" -> IF d \in {"sqlite", "postgres"} THEN "UUID" ELSE "BINARY(16)"
      [] OTHER -> ""

(* Literals need no brackets as a default. *)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Number(s) == LET t == IF s # "" /\ Ch(s, 1) = "-" THEN From(s, 2) ELSE s
             IN  t # "" /\ \A i \in 1..Len(t) : Ch(t, i) \in Digits \cup {"."}
(* The position behind the string literal that starts at i. *)
RECURSIVE AfterString(_, _), Bracket(_, _, _), Bare(_)
AfterString(s, i) == LET j == Until(s, i + 1, {"'"})
                     IN  IF j < Len(s) /\ Ch(s, j + 1) = "'" THEN AfterString(s, j + 1) ELSE j + 1
(* The position of the bracket that closes the ones open at i, 0 if none does. *)
Bracket(s, i, open) ==
    IF i > Len(s) THEN 0
    ELSE IF Ch(s, i) = "'" THEN Bracket(s, AfterString(s, i), open)
    ELSE IF Ch(s, i) = ")" THEN IF open = 1 THEN i ELSE Bracket(s, i + 1, open - 1)
    ELSE Bracket(s, i + 1, IF Ch(s, i) = "(" THEN open + 1 ELSE open)
Literal(s) == \/ Len(s) >= 2 /\ Ch(s, 1) = "'" /\ AfterString(s, 1) = Len(s) + 1
              \/ s \in {"TRUE", "FALSE", "true", "false", "True", "False", "NULL", "null", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "current_timestamp"}
              \/ Number(s)
Bracketed(s) == s # "" /\ Ch(s, 1) = "(" /\ Bracket(s, 2, 1) = Len(s)
Bare(s) == IF Bracketed(s) THEN Bare(SubSeq(s, 2, Len(s) - 1)) ELSE s
Default(d, s) == IF Literal(s) THEN IF d = "sqlserver" THEN CASE s \in {"TRUE", "true", "True"} -> "1" [] s \in {"FALSE", "false", "False"} -> "0" [] OTHER -> s ELSE s
                 ELSE IF d = "postgres" \/ Bracketed(s) THEN s ELSE "(" \o s \o ")"

Rule(d, v) == CASE v = "cascade" -> "CASCADE" [] v = "restrict" -> IF d = "sqlserver" THEN "NO ACTION" ELSE "RESTRICT"
                [] v = "noaction" -> "NO ACTION" [] v = "setnull" -> "SET NULL" [] v = "setdefault" -> "SET DEFAULT" [] OTHER -> "?"

(* Modifiers that apply to d, the dialect modifier being taken as a prefix of *)
(* those to its right.                                                        *)
RECURSIVE Effective(_, _)
Effective(ms, ds) ==
    IF ms = <<>> THEN <<>>
    ELSE LET m == Head(ms)
             e == [m EXCEPT !.dialects = IF m.dialects = <<>> THEN ds ELSE m.dialects]
         IN  <<e>> \o Effective(Tail(ms), IF m.name = "dialect" THEN Split(m.raw, ",") ELSE ds)
Those(ms, d) == SelectSeq(ms, LAMBDA m : Applies(m, d) \/ m.name = "dialect")
Modifiers(tag, d) == Those(Effective(Tag(tag, 1).ms, <<>>), d)
Subs(x, d) == SelectSeq(x.tag.ms, LAMBDA m : Applies(m, d))

RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
RECURSIVE Underscores(_)
Underscores(s) == LET i == Until(s, 1, {" "}) IN IF i > Len(s) THEN s ELSE SubSeq(s, 1, i - 1) \o "_" \o Underscores(From(s, i + 1))
NameOf(table, cols, suffix) == Underscores(table \o "_" \o Join(cols, "_")) \o suffix
Suffix(kind) == CASE kind = "PRIMARY KEY" -> "_pkey" [] kind = "UNIQUE" -> "_key" [] OTHER -> "_fkey"

(* Two declarations of the same thing add up. *)
Put(q, x, same(_, _)) == IF \E k \in DOMAIN q : same(q[k], x) THEN [k \in DOMAIN q |-> IF same(q[k], x) THEN x ELSE q[k]] ELSE Append(q, x)
Find(q, P(_), new) == IF \E k \in DOMAIN q : P(q[k]) THEN q[CHOOSE k \in DOMAIN q : P(q[k])] ELSE new

Columns(x, own) == IF x.value \in {"", "."} THEN own ELSE Split(x.value, ",")
Wrong(T) == [T EXCEPT !.wrong = TRUE]

AddIndex(T, m, own, d) ==
    LET x == Inner(m.raw)
        cols == Columns(x, own)
        ms == Subs(x, d)
        old == Find(T.idx, LAMBDA i : i.cols = cols, [name |-> NameOf(T.name, cols, "_idx"), cols |-> cols, unique |-> FALSE, using |-> ""])
        using == SelectSeq(ms, LAMBDA s : s.name = "using")
        new == [old EXCEPT !.unique = @ \/ \E k \in DOMAIN ms : ms[k].name = "unique",
                           !.using = IF using # <<>> /\ d \in {"postgres", "mysql"} THEN using[Len(using)].raw ELSE @]
    IN  IF cols = <<>> \/ \E k \in DOMAIN ms : ms[k].name \notin {"unique", "using"} THEN Wrong(T)
        ELSE [T EXCEPT !.idx = Put(@, new, LAMBDA a, b : a.cols = b.cols)]

Constraint(T, kind, cols, d) ==
    Find(T.cons, LAMBDA c : c.kind = kind /\ c.cols = cols,
         [kind |-> kind, name |-> IF kind = "PRIMARY KEY" /\ d = "mysql" THEN "PRIMARY" ELSE NameOf(T.name, cols, Suffix(kind)), cols |-> cols,
          rs |-> "", rt |-> "", rc |-> <<>>, upd |-> "", del |-> "", dfr |-> FALSE, dfd |-> FALSE])
AddConstraint(T, c) == [T EXCEPT !.cons = Put(@, c, LAMBDA a, b : a.kind = b.kind /\ a.cols = b.cols)]

RECURSIVE SubConstraint(_, _, _)
SubConstraint(c, ms, d) ==
    IF ms = <<>> THEN c
    ELSE LET m == Head(ms)
             deferring == d \in {"sqlite", "postgres"}
             p == Split(m.raw, ".")
         IN  SubConstraint(
                 CASE m.name = "references" ->
                          [c EXCEPT !.rs = IF Len(p) = 3 THEN p[1] ELSE "", !.rt = IF Len(p) = 3 THEN p[2] ELSE p[1],
                                    !.rc = IF Len(p) = 1 THEN c.cols ELSE Split(p[Len(p)], ",")]
                   [] m.name = "onupdate" -> [c EXCEPT !.upd = Rule(d, m.raw)]
                   [] m.name = "ondelete" -> [c EXCEPT !.del = Rule(d, m.raw)]
                   [] m.name = "deferrable" -> [c EXCEPT !.dfr = @ \/ deferring]
                   [] m.name = "deferred" -> [c EXCEPT !.dfr = @ \/ deferring, !.dfd = @ \/ deferring]
                   [] OTHER -> c, Tail(ms), d)
RECURSIVE SubIndexes(_, _, _, _)
SubIndexes(T, ms, own, d) ==
    IF ms = <<>> THEN T ELSE SubIndexes(IF Head(ms).name = "index" THEN AddIndex(T, Head(ms), own, d) ELSE T, Tail(ms), own, d)

AddKey(T, m, own, d) ==
    LET x == Inner(m.raw)
        cols == Columns(x, own)
        ms == Subs(x, d)
        kind == IF m.name = "primarykey" THEN "PRIMARY KEY" ELSE "UNIQUE"
    IN  IF cols = <<>> \/ \E k \in DOMAIN ms : ms[k].name \notin {"deferrable", "deferred"} THEN Wrong(T)
        ELSE AddConstraint(T, SubConstraint(Constraint(T, kind, cols, d), ms, d))

AddForeignKey(T, m, own, d) ==
    LET x == Inner(m.raw)
        short == m.name = "references"
        cols == IF short THEN own ELSE Columns(x, <<>>)
        ms == (IF short THEN <<[name |-> "references", dialects |-> <<>>, raw |-> x.value]>> ELSE <<>>) \o Subs(x, d)
        c == SubConstraint(Constraint(T, "FOREIGN KEY", cols, d), ms, d)
    IN  IF cols = <<>> \/ c.rc = <<>> \/ c.rt = "" \/ c.upd = "?" \/ c.del = "?"
           \/ \E k \in DOMAIN ms : ms[k].name \notin {"references", "onupdate", "ondelete", "deferrable", "deferred", "index"} THEN Wrong(T)
        ELSE SubIndexes(AddConstraint(T, c), ms, cols, d)

(* A dialect modifier makes what it stands in vanish for the other dialects. *)
Gone(m, d) == \A k \in DOMAIN Split(m.raw, ",") : Split(m.raw, ",")[k] # d

RECURSIVE TableItem(_, _, _), ColumnItem(_, _, _, _)
TableItem(T, ms, d) ==
    IF ms = <<>> THEN T
    ELSE LET m == Head(ms)
         IN  TableItem(CASE m.name = "dialect" -> IF m.raw = "" THEN Wrong(T) ELSE [T EXCEPT !.gone = Gone(m, d)]
                         [] m.name = "index" -> AddIndex(T, m, <<>>, d)
                         [] m.name \in {"primarykey", "unique"} -> AddKey(T, m, <<>>, d)
                         [] m.name = "foreignkey" -> AddForeignKey(T, m, <<>>, d)
                         [] m.name = "virtual" -> [T EXCEPT !.virtual = @ \/ d = "sqlite"]
                         [] OTHER -> Wrong(T), Tail(ms), d)

(* The column being declared is the last one of T. *)
ColumnItem(T, ms, d, col) ==
    IF ms = <<>> THEN T
    ELSE LET m == Head(ms)
             n == Len(T.cols)
             Set(U, f, v) == [U EXCEPT !.cols = [@ EXCEPT ![n] = [@ EXCEPT ![f] = v]]]
         IN  ColumnItem(
                CASE m.name = "dialect" -> IF m.raw = "" THEN Wrong(T) ELSE Set(T, "gone", Gone(m, d))
                  [] m.name = "index" -> AddIndex(T, m, <<col>>, d)
                  [] m.name \in {"primarykey", "unique"} -> AddKey(T, m, <<col>>, d)
                  [] m.name \in {"foreignkey", "references"} -> AddForeignKey(T, m, IF m.name = "references" THEN <<col>> ELSE <<>>, d)
                  [] m.name = "type" -> Set(Set(T, "type", IF m.raw \in {"CHAR", "VARCHAR"} /\ T.cols[n].len # "" THEN m.raw \o "(" \o T.cols[n].len \o ")" ELSE m.raw), "typed", TRUE)
                  [] m.name = "len" -> LET U == Set(T, "len", m.raw)
                                       IN  CASE d = "sqlite" -> U [] d = "sqlserver" -> Set(U, "type", "NVARCHAR(" \o m.raw \o ")") [] OTHER -> Set(U, "type", "VARCHAR(" \o m.raw \o ")")
                  [] m.name = "auto_increment" -> IF d = "mysql" THEN Set(T, "auto", TRUE) ELSE T
                  [] m.name = "autoincrement" -> IF d = "sqlite" THEN Set(Set(T, "auto", TRUE), "type", "INTEGER") ELSE T
                  [] m.name = "identity" -> CASE d = "postgres" -> Set(T, "identity", "GENERATED BY DEFAULT AS IDENTITY") [] d = "sqlserver" -> Set(T, "identity", "IDENTITY") [] OTHER -> T
                  [] m.name = "alwaysidentity" -> CASE d = "postgres" -> Set(T, "identity", "GENERATED ALWAYS AS IDENTITY") [] d = "sqlserver" -> Set(T, "identity", "IDENTITY") [] OTHER -> T
                  [] m.name = "notnull" -> Set(T, "notnull", TRUE)
                  [] m.name = "onupdatecurrenttimestamp" -> IF d = "mysql" THEN Set(T, "onupdate", TRUE) ELSE T
                  [] m.name = "collate" -> Set(T, "collate", m.raw)
                  [] m.name = "default" -> Set(T, "default", Default(d, m.raw))
                  [] m.name = "generated" -> Set(T, "generated", TRUE)
                  [] OTHER -> Wrong(T), Tail(ms), d, col)

RECURSIVE Items(_, _, _)
Items(T, q, d) ==
    IF q = <<>> THEN T
    ELSE LET x == Head(q)
             ms == Modifiers(x.tag, d)
             new == [name |-> x.col, type |-> DefaultType(d, x.type), notnull |-> FALSE, default |-> "", identity |-> "", auto |-> FALSE, onupdate |-> FALSE,
                     collate |-> "", generated |-> FALSE, gone |-> FALSE, typed |-> FALSE, len |-> ""]
         IN  Items(IF x.col = "" THEN TableItem(T, ms, d) ELSE ColumnItem([T EXCEPT !.cols = Append(@, new)], ms, d, x.col), Tail(q), d)

Set(q) == {q[k] : k \in DOMAIN q}
PrimaryKey(cons) == {c \in cons : c.kind = "PRIMARY KEY"}
(* What is left of the columns once the keys are known. *)
Finish(c, pk, d) ==
    LET sole == \E p \in pk : p.cols = <<c.name>>
        type == IF d = "sqlite" /\ sole /\ c.type = "INT" /\ ~c.typed THEN "INTEGER" ELSE c.type
        member == \E p \in pk : \E k \in DOMAIN p.cols : p.cols[k] = c.name
    IN  [name |-> c.name, type |-> type, notnull |-> c.notnull \/ (member /\ ~(d = "sqlite" /\ sole /\ type = "INTEGER")), default |-> c.default,
         identity |-> c.identity, auto |-> c.auto, onupdate |-> c.onupdate, collate |-> c.collate, generated |-> c.generated]

TableOf(s, d, current) ==
    LET T == Items([schema |-> IF s.schema = "" THEN current ELSE s.schema, name |-> s.name, virtual |-> FALSE, gone |-> FALSE, wrong |-> FALSE,
                    cols |-> <<>>, cons |-> <<>>, idx |-> <<>>], s.items, d)
        there == SelectSeq(T.cols, LAMBDA c : ~c.gone)
        pk == PrimaryKey(Set(T.cons))
        names == {c.name : c \in Set(there)}
    IN  [schema |-> T.schema, name |-> T.name, virtual |-> T.virtual, gone |-> T.gone,
         wrong |-> T.wrong \/ (\E x \in Set(T.cons) \cup Set(T.idx) : \E k \in DOMAIN x.cols : x.cols[k] \notin names),
         cols |-> <<>> \o [k \in DOMAIN there |-> Finish(there[k], pk, d)], cons |-> Set(T.cons), idx |-> Set(T.idx)]

Meaning(structs, d, current) == {T \in {TableOf(s, d, current) : s \in Set(structs)} : ~T.gone}
HasColumn(T, c) == \E k \in DOMAIN T.cols : T.cols[k].name = c
Dangling(M, current) ==
    \E T \in M : \E c \in T.cons : c.kind = "FOREIGN KEY"
        /\ ~\E R \in M : R.name = c.rt /\ R.schema = (IF c.rs = "" THEN current ELSE c.rs) /\ \A k \in DOMAIN c.rc : HasColumn(R, c.rc[k])
(* The declarations mean nothing to d: something they refer to is not there,  *)
(* or a modifier is none.                                                     *)
Senseless(structs, d, current) == LET M == Meaning(structs, d, current) IN (\E T \in M : T.wrong) \/ Dangling(M, current)
(* Mistakes in what is not there for any dialect asked for may be reported.   *)
Doubtful(structs, current) == \E d \in Dialects : Senseless(structs, d, current) \/ \E s \in Set(structs) : TableOf(s, d, current).wrong

Seen(T) == [schema |-> T.schema, name |-> T.name, virtual |-> T.virtual, cols |-> T.cols, cons |-> T.cons, idx |-> T.idx]
SeenIn(cat) == {[schema |-> T.schema, name |-> T.name, virtual |-> T.virtual, cols |-> T.cols, cons |-> Set(T.cons), idx |-> Set(T.idx)] : T \in Set(cat)}
Repeats(cat) == \/ Cardinality({<<T.schema, T.name>> : T \in Set(cat)}) # Len(cat)
                \/ \E T \in Set(cat) : Cardinality(Set(T.cons)) # Len(T.cons) \/ Cardinality(Set(T.idx)) # Len(T.idx)

C(what) == {<<"C17", what>>}
(* Two descriptions of a set of tables, compared part by part. *)
Differ(want, got) ==
    LET keys(X) == {<<T.schema, T.name>> : T \in X}
        both == {<<a, b>> \in want \X got : a.schema = b.schema /\ a.name = b.name}
    IN  (IF keys(want) # keys(got) THEN C("declarations yield other tables") ELSE {})
        \cup (IF \E p \in both : p[1].cols # p[2].cols \/ p[1].virtual # p[2].virtual THEN C("a declaration yields other columns") ELSE {})
        \cup (IF \E p \in both : p[1].cons # p[2].cons THEN C("a declaration yields other constraints") ELSE {})
        \cup (IF \E p \in both : p[1].idx # p[2].idx THEN C("a declaration yields other indexes") ELSE {})

BrokenDecl(ev) ==
    LET d == ev.dialect
    IN  IF ev.crashed THEN C("parsing declarations crashes")
        ELSE IF Senseless(ev.structs, d, ev.current) THEN IF ev.err = "" THEN C("declarations that refer to nothing are accepted") ELSE {}
        ELSE IF ev.err # "" THEN IF Doubtful(ev.structs, ev.current) THEN {} ELSE C("sensible declarations are rejected")
        ELSE Differ({Seen(T) : T \in Meaning(ev.structs, d, ev.current)}, SeenIn(ev.cat))
             \cup (IF Repeats(ev.cat) THEN C("declarations yield something twice") ELSE {})

(* ------------------------------------------------------------------------- *)
(* Generated declarations. What a database holds is described like a catalog, *)
(* names of constraints and indexes aside. Nullability of the columns of a    *)
(* primary key is not for a declaration to choose.                            *)
Rl(r) == IF r = "" THEN "NO ACTION" ELSE r
Ref(s, current) == IF s = "" THEN current ELSE s
Gist(T, current) ==
    LET members == UNION {Set(c.cols) : c \in PrimaryKey(Set(T.cons))}
    IN  [schema |-> Ref(T.schema, current), name |-> T.name, virtual |-> T.virtual,
         cols |-> <<>> \o [k \in DOMAIN T.cols |-> [T.cols[k] EXCEPT !.default = Bare(@), !.notnull = @ /\ T.cols[k].name \notin members]],
         cons |-> {[kind |-> c.kind, cols |-> c.cols, rs |-> IF c.kind = "FOREIGN KEY" THEN Ref(c.rs, current) ELSE "", rt |-> c.rt, rc |-> c.rc,
                    upd |-> IF c.kind = "FOREIGN KEY" THEN Rl(c.upd) ELSE "", del |-> IF c.kind = "FOREIGN KEY" THEN Rl(c.del) ELSE "", dfr |-> c.dfr, dfd |-> c.dfd] : c \in Set(T.cons)},
         idx |-> {[cols |-> i.cols, unique |-> i.unique, using |-> i.using] : i \in Set(T.idx)}]
BrokenTrip(ev) ==
    LET keys(X) == {<<T.schema, T.name>> : T \in X}
        want == {Gist(T, ev.current) : T \in Set(ev.db)}
        got == {Gist(T, ev.current) : T \in Set(ev.cat)}
        both == {<<a, b>> \in want \X got : a.schema = b.schema /\ a.name = b.name}
        Names(T) == [k \in DOMAIN T.cols |-> T.cols[k].name]
        Types(T) == [k \in DOMAIN T.cols |-> T.cols[k].type]
    IN  IF ev.crashed THEN C("generating declarations crashes")
        ELSE IF ev.generr # "" THEN C("declarations are not generated")
        ELSE IF ev.goerr # "" THEN C("generated declarations do not compile")
        ELSE IF ev.err # "" THEN C("generated declarations are rejected")
        ELSE IF keys(want) # keys(got) THEN C("generated declarations describe other tables")
        ELSE (IF \E p \in both : Names(p[1]) # Names(p[2]) THEN C("generated declarations describe other columns")
              ELSE IF \E p \in both : Types(p[1]) # Types(p[2]) THEN C("generated declarations describe other types")
              ELSE IF \E p \in both : p[1].cols # p[2].cols THEN C("generated declarations describe columns differently") ELSE {})
             \cup (IF \E p \in both : p[1].cons # p[2].cons THEN C("generated declarations describe other constraints") ELSE {})
             \cup (IF \E p \in both : p[1].idx # p[2].idx THEN C("generated declarations describe other indexes") ELSE {})

Broken(S, ev) == IF ev.e = "decl" THEN BrokenDecl(ev) ELSE BrokenTrip(ev)
=============================================================================
