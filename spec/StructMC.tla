------------------------------ MODULE StructMC ------------------------------
(* Declarations are written item by item; at every point what they mean to a  *)
(* dialect does not depend on modifiers for other dialects, nor constraints   *)
(* and indexes on the order of the items. Tables are described column by      *)
(* column and key by key; declarations that describe them exist, namely those *)
(* that Unparse writes.                                                       *)
EXTENDS Struct, TLC

CONSTANTS MaxItems, MaxParts

Own == <<"a", "b">>
(* No two of them declare the same thing differently for a dialect. *)
TableTags == {"", "primarykey=a,b", "sqlite:primarykey=a", "unique=a", "postgres:unique={b deferrable}", "index=a,b", "mysql,sqlite:index={b unique}",
              "foreignkey={a references=t.b}", "sqlserver:foreignkey={b,a references=t onupdate=cascade}"}
ColumnTags == {"", "primarykey", "unique", "mysql:index={. unique}", "references={t.b ondelete=restrict index}", "postgres,sqlite:references={t.b onupdate=cascade}", "notnull", "sqlite:default=1", "type=BIGINT postgres:type=TEXT"}
TagItem(tag) == [col |-> "", type |-> "", tag |-> tag]
ColItem(c, type, tag) == [col |-> c, type |-> type, tag |-> tag]
Declared(q) == [schema |-> "", name |-> "t", items |-> <<TagItem("")>> \o q]

VARIABLES items, tab, done
vars == <<items, tab, done>>

(* ------------------------------------------------------------------------- *)
Types == {"INT", "INTEGER", "BIGINT", "TIMESTAMP", "DATETIME", "TEXT", "VARCHAR(255)"}
Parts == [part : {"col"}, type : Types, default : {"", "1", "(1 + 1)"}, notnull : BOOLEAN]
         \cup [part : {"con"}, kind : {"PRIMARY KEY", "UNIQUE"}, cols : {<<"a">>, <<"a", "b">>}]
         \cup [part : {"con"}, kind : {"FOREIGN KEY"}, cols : {<<"a">>, <<"a", "b">>, <<"b", "a">>}, rt : {"t", "u"}, rs : {"", "s"}]
         \cup [part : {"idx"}, cols : {<<"a">>, <<"b", "a">>}, unique : BOOLEAN]
Blank(current) == [schema |-> current, name |-> "t", virtual |-> FALSE, cols |-> <<>>, cons |-> <<>>, idx |-> <<>>]
Fits(T, p) ==
    CASE p.part = "col" -> Len(T.cols) < 2 /\ T.cons = <<>> /\ T.idx = <<>> /\ (T.cols # <<>> => p.type \in {"INT", "TEXT"} /\ p.default = "" /\ ~p.notnull)
      [] p.part = "con" -> /\ Len(T.cols) = 2 /\ T.idx = <<>>
                           /\ \A k \in DOMAIN T.cons : ~(T.cons[k].kind = p.kind /\ (T.cons[k].cols = p.cols \/ p.kind = "PRIMARY KEY"))
      [] OTHER -> Len(T.cols) = 2 /\ \A k \in DOMAIN T.idx : T.idx[k].cols # p.cols
With(T, p) ==
    CASE p.part = "col" -> [T EXCEPT !.cols = Append(@, [name |-> Own[Len(@) + 1], type |-> p.type, notnull |-> p.notnull, default |-> p.default, identity |-> "", auto |-> FALSE,
                                                         onupdate |-> FALSE, collate |-> "", generated |-> FALSE])]
      [] p.part = "con" -> LET fk == p.kind = "FOREIGN KEY"
                           IN  [T EXCEPT !.cons = Append(@, [kind |-> p.kind, name |-> "", cols |-> p.cols, rs |-> IF fk THEN p.rs ELSE "", rt |-> IF fk THEN p.rt ELSE "",
                                                             rc |-> IF fk THEN SubSeq(Own, 1, Len(p.cols)) ELSE <<>>, upd |-> "", del |-> IF fk THEN "CASCADE" ELSE "", dfr |-> FALSE, dfd |-> FALSE])]
      [] OTHER -> [T EXCEPT !.idx = Append(@, [name |-> "", cols |-> p.cols, unique |-> p.unique, using |-> ""])]

(* Writing declarations: the type is left out where it is the default one. *)
FieldOf(type) == CASE type \in {"INT", "INTEGER", "BIGINT"} -> "sq.NumberField" [] type \in {"TIMESTAMP", "DATETIME"} -> "sq.TimeField" [] OTHER -> "sq.StringField"
Brace(v) == IF Has(v, " ") THEN "{" \o v \o "}" ELSE v
Words(q) == Join(SelectSeq(q, LAMBDA w : w # ""), " ")
Sole(T, c, kind) == \E k \in DOMAIN T.cons : T.cons[k].kind = kind /\ T.cons[k].cols = <<c>>
ColumnTag(T, c, d) ==
    LET default == IF d = "sqlite" /\ Sole(T, c.name, "PRIMARY KEY") /\ FieldOf(c.type) = "sq.NumberField" THEN "INTEGER" ELSE DefaultType(d, FieldOf(c.type))
    IN  Words(<<IF c.type = default THEN "" ELSE "type=" \o c.type, IF c.notnull THEN "notnull" ELSE "", IF c.default = "" THEN "" ELSE "default=" \o Brace(Bare(c.default)),
                IF Sole(T, c.name, "PRIMARY KEY") THEN "primarykey" ELSE "", IF Sole(T, c.name, "UNIQUE") THEN "unique" ELSE "">>)
ConTag(T, c) ==
    CASE c.kind = "FOREIGN KEY" -> "foreignkey={" \o Join(c.cols, ",") \o " references=" \o (IF c.rs = "" THEN "" ELSE c.rs \o ".") \o c.rt
                                   \o (IF c.rs = "" /\ c.rc = c.cols THEN "" ELSE "." \o Join(c.rc, ",")) \o " ondelete=cascade}"
      [] Len(c.cols) = 1 -> ""
      [] OTHER -> (IF c.kind = "UNIQUE" THEN "unique=" ELSE "primarykey=") \o Join(c.cols, ",")
IdxTag(i) == "index={" \o Join(i.cols, ",") \o (IF i.unique THEN " unique" ELSE "") \o "}"
Unparse(T, d) ==
    [schema |-> "", name |-> T.name,
     items |-> <<TagItem("")>> \o [k \in DOMAIN T.cols |-> ColItem(T.cols[k].name, FieldOf(T.cols[k].type), ColumnTag(T, T.cols[k], d))]
               \o [k \in DOMAIN T.cons |-> TagItem(ConTag(T, T.cons[k]))] \o [k \in DOMAIN T.idx |-> TagItem(IdxTag(T.idx[k]))]]

(* ------------------------------------------------------------------------- *)
Init == items = <<>> /\ tab = <<>> /\ done = 0
Write ==
    /\ tab = <<>> /\ done < MaxItems /\ done' = done + 1 /\ UNCHANGED tab
    /\ IF Len(items) < 2 THEN \E tag \in ColumnTags : items' = Append(items, ColItem(Own[Len(items) + 1], "sq.NumberField", tag))
       ELSE \E tag \in TableTags : items' = Append(items, TagItem(tag))
Describe ==
    /\ items = <<>> /\ done < MaxParts /\ done' = done + 1 /\ UNCHANGED items
    /\ \E p \in Parts : LET T == IF tab = <<>> THEN Blank("") ELSE tab[1] IN Fits(T, p) /\ tab' = <<With(T, p)>>
Next == Write \/ Describe

(* What is left of a tag for d. *)
Only(tag, d) == LET ms == Modifiers(tag, d) IN Words(<<>> \o [k \in DOMAIN ms |-> ms[k].name \o IF ms[k].raw = "" THEN "" ELSE "={" \o ms[k].raw \o "}"])
OnlyFor(q, d) == [k \in DOMAIN q |-> [q[k] EXCEPT !.tag = Only(@, d)]]
Swap(q, i) == [k \in DOMAIN q |-> IF k = i THEN q[i + 1] ELSE IF k = i + 1 THEN q[i] ELSE q[k]]

Restricted == \A d \in Dialects : TableOf(Declared(items), d, "") = TableOf(Declared(OnlyFor(items, d)), d, "")
Unordered ==
    \A d \in Dialects, i \in 1..Len(items) - 1 :
        LET T == TableOf(Declared(items), d, "")
            U == TableOf(Declared(Swap(items, i)), d, "")
        IN  T.cons = U.cons /\ T.idx = U.idx /\ T.wrong = U.wrong /\ Set(T.cols) = Set(U.cols)
Described == tab # <<>> => \A d \in Dialects :
    LET T == TableOf(Unparse(tab[1], d), d, "")
    IN  /\ ~T.wrong
        /\ LET w == Gist(tab[1], "")
               members == UNION {Set(c.cols) : c \in PrimaryKey(T.cons)}
           IN  /\ w.cols = <<>> \o [k \in DOMAIN T.cols |-> [T.cols[k] EXCEPT !.default = Bare(@), !.notnull = @ /\ T.cols[k].name \notin members]]
               /\ w.cons = {[kind |-> c.kind, cols |-> c.cols, rs |-> c.rs, rt |-> c.rt, rc |-> c.rc, upd |-> IF c.kind = "FOREIGN KEY" THEN Rl(c.upd) ELSE "",
                             del |-> IF c.kind = "FOREIGN KEY" THEN Rl(c.del) ELSE "", dfr |-> c.dfr, dfd |-> c.dfd] : c \in T.cons}
               /\ w.idx = {[cols |-> i.cols, unique |-> i.unique, using |-> i.using] : i \in T.idx}
=============================================================================
