----------------------------- MODULE StructGen ------------------------------
(* Every declaration of a table of two columns with one table-level item, of  *)
(* the tags below, one primary key per dialect at most.                       *)
EXTENDS StructMC, Json
CONSTANT Full

More == IF Full THEN {"postgres:primarykey={b deferred}", "mysql:foreignkey={a references=t.a ondelete=setnull postgres:index}", "sqlserver:unique=a,b index={b using=HASH}", "dialect=sqlite,mysql unique=b"} ELSE {}
MoreColumn == IF Full THEN {"autoincrement primarykey", "identity auto_increment", "len=50 mysql:type=TEXT", "dialect=mysql,sqlite notnull", "default={(1) + (2)}", "default=TRUE sqlite:default='a'", "nonsense"} ELSE {}
VARIABLE g
GInit == g = <<>>  /\ Init
GNext == /\ Len(g) < 4 /\ UNCHANGED vars
         /\ \E tag \in IF Len(g) \in {0, 3} THEN TableTags \cup More ELSE ColumnTags \cup MoreColumn : g' = Append(g, tag)
Items2 == <<[field |-> "", col |-> "", type |-> "", tag |-> g[1]],
            [field |-> "A", col |-> "a", type |-> "sq.NumberField", tag |-> g[2]],
            [field |-> "B", col |-> "b", type |-> "sq.StringField", tag |-> g[3]],
            [field |-> "", col |-> "", type |-> "", tag |-> g[4]]>>
T == [go |-> "T", schema |-> "", name |-> "t", items |-> Items2]
Sound == \A d \in Dialects : Cardinality(PrimaryKey(TableOf(T, d, "").cons)) <= 1
Size == Len(g[1]) + 3 * Len(g[2]) + 5 * Len(g[3]) + 7 * Len(g[4])
Written == IF Len(g) = 4 /\ (Full \/ g[1] = "" \/ g[4] = "") THEN
             (IF Sound THEN PrintT("SCENARIO " \o ToJson([id |-> "", kind |-> "decl", current |-> "", dialect |-> "", structs |-> <<T>>, order |-> Size, shared |-> Size % 2 = 0, db |-> <<>>])) ELSE TRUE)
           ELSE TRUE
=============================================================================
