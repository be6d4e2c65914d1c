------------------------------- MODULE Batch --------------------------------
(* Inserting a stream of rows into a table in batches, described by the       *)
(* statements that reach the database. A table is a sequence of rows, a row a *)
(* function from column to value ("~" is NULL). The statements are executed   *)
(* on the specified table by the rules of each dialect; what is left must be  *)
(* what inserting (or upserting) the rows one by one would have left.         *)
(*                                                                            *)
(* Broken(S, ev) is the set of <<property, clause>> an event violates and     *)
(* Step(S, ev) the state after it.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Null == "~"
None == [e |-> "none"]

Range(s) == {s[i] : i \in 1..Len(s)}
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

(* The largest number of parameters of one statement. *)
Params(d) == CASE d = "sqlite" -> 32766 [] d = "sqlserver" -> 2100 [] OTHER -> 65535

(* A listed row as a row of a table with columns all. *)
Row(all, cols, v) == [c \in Range(all) |-> IF c \in Range(cols) THEN v[Pos(cols, c)] ELSE Null]
Rows(all, cols, vs) == [i \in 1..Len(vs) |-> Row(all, cols, vs[i])]

(* Rows with equal keys; a NULL equals nothing. *)
Same(key, r, s) == Len(key) > 0 /\ \A c \in Range(key) : r[c] = s[c] /\ r[c] # Null
Hit(key, tab, r) == {i \in 1..Len(tab) : Same(key, tab[i], r)}

Set(old, new, pairs) ==
    [c \in DOMAIN old |-> LET P == {i \in 1..Len(pairs) : pairs[i][1] = c}
                          IN  IF P = {} THEN old[c] ELSE new[pairs[CHOOSE i \in P : TRUE][2]]]

(* A statement leaves a table or is refused for a reason. *)
Ok(t) == [ok |-> TRUE, t |-> t, why |-> ""]
No(why) == [ok |-> FALSE, t |-> <<>>, why |-> why]

(* INSERT of the rows one after the other. How a conflict is dealt with:      *)
(* none (refused), nothing, update, duplicate (MySQL), absent (rows whose key *)
(* is not in the table when the statement starts).                            *)
RECURSIVE InsertAll(_, _, _, _, _, _)
InsertAll(d, key, op, tab, seen, rows) ==
    IF rows = <<>> THEN Ok(tab)
    ELSE LET r == Head(rows)
             h == Hit(key, tab, r)
             next(t) == InsertAll(d, key, op, t, Append(seen, r), Tail(rows))
         IN  IF h = {} THEN next(Append(tab, r))
             ELSE CASE op.conf \in {"none", "absent"} -> No("duplicate key")
                    [] op.conf = "nothing" -> next(tab)
                    [] OTHER ->
                        IF d = "postgres" /\ \E i \in 1..Len(seen) : Same(key, seen[i], r)
                        THEN No("row updated twice by one statement")
                        ELSE LET i == CHOOSE i \in h : TRUE
                             IN  next([tab EXCEPT ![i] = Set(tab[i], r, op.set)])

Names(op) == Range(op.cols) \cup Range(op.keys) \cup UNION {{p[1], p[2]} : p \in Range(op.set)}

Exec(S, op) ==
    CASE op.o = "bad" -> No("syntax")
      [] op.o \in {"insert", "update"} /\ op.t # S.t -> No("no such table")
      [] op.o \in {"insert", "update"} /\ ~(Names(op) \subseteq Range(S.all)) -> No("no such column")
      [] op.o \in {"insert", "update"} /\ Cardinality(Range(op.cols)) # Len(op.cols) -> No("column listed twice")
      [] op.o \in {"insert", "update"} /\ (\E i \in 1..Len(op.rows) : Len(op.rows[i]) # Len(op.cols)) -> No("number of values")
      [] op.o = "insert" ->
            LET rows == Rows(S.all, op.cols, op.rows)
                given == Range(op.cols) \cap Range(S.ident) # {}
                upd == {p[1] : p \in Range(op.set)}
                todo == IF op.conf = "absent" THEN SelectSeq(rows, LAMBDA r : Hit(op.keys, S.tab, r) = {}) ELSE rows
            IN  IF S.d = "sqlserver" /\ given /\ ~S.idon THEN No("explicit value for an identity column")
                ELSE IF S.d = "sqlserver" /\ S.idon /\ ~given THEN No("identity value missing")
                ELSE IF S.d = "sqlserver" /\ op.conf = "none" /\ Len(op.rows) > 1000 THEN No("too many rows")
                ELSE IF S.d = "postgres" /\ given /\ ~op.over THEN No("explicit value for an identity column")
                ELSE IF op.conf \in {"update", "nothing"} /\ Range(op.keys) # Range(S.key) THEN No("conflict target")
                ELSE InsertAll(S.d, S.key, op, S.tab, <<>>, todo)
      [] op.o = "update" ->
            LET rows == Rows(S.all, op.cols, op.rows)
                new(i) == LET H == {j \in 1..Len(rows) : Same(op.keys, S.tab[i], rows[j])}
                          IN  IF H = {} THEN S.tab[i] ELSE Set(S.tab[i], rows[CHOOSE j \in H : TRUE], op.set)
            IN  IF S.d # "sqlserver" THEN No("syntax")
                ELSE IF {p[1] : p \in Range(op.set)} \cap Range(S.ident) # {} THEN No("identity column set")
                ELSE Ok([i \in 1..Len(S.tab) |-> new(i)])
      [] op.o = "identity" ->
            IF op.t # S.t THEN No("no such table") ELSE IF S.ident = <<>> THEN No("no identity column") ELSE Ok(S.tab)
      [] op.o = "setval" ->
            IF op.t # S.t \/ op.from # S.t THEN No("no such table")
            ELSE IF ~({op.col, op.max} \subseteq Range(S.all)) THEN No("no such column")
            ELSE IF op.col \notin Range(S.ident) THEN No("no sequence")
            ELSE Ok(S.tab)
      [] OTHER -> Ok(S.tab)

(* The table after the rows, one by one. *)
Upsert(S, tab, r) ==
    LET h == Hit(S.key, tab, r)
    IN  IF h = {} THEN Append(tab, r)
        ELSE LET i == CHOOSE i \in h : TRUE
             IN  [tab EXCEPT ![i] = [c \in DOMAIN r |->
                    IF c \in Range(S.cols) /\ (S.d = "sqlserver" => c \notin Range(S.ident)) THEN r[c] ELSE tab[i][c]]]
RECURSIVE OneByOne(_, _, _)
OneByOne(S, tab, vs) == IF vs = <<>> THEN tab ELSE OneByOne(S, Upsert(S, tab, Row(S.all, S.cols, Head(vs))), Tail(vs))

Count(t, r) == Cardinality({i \in 1..Len(t) : t[i] = r})
SameTable(a, b) == Len(a) = Len(b) /\ \A r \in Range(a) : Count(a, r) = Count(b, r)

(* Upserting is asked for when every key column is among the columns. *)
Upserts(S) == S.keys # <<>> /\ Range(S.keys) \subseteq Range(S.cols)

(* Inserting the rows one by one without upserting would fail. *)
RECURSIVE Collides(_, _, _)
Collides(S, tab, vs) ==
    IF vs = <<>> THEN FALSE
    ELSE LET r == Row(S.all, S.cols, Head(vs))
         IN  IF Hit(S.key, tab, r) # {} THEN TRUE ELSE Collides(S, Append(tab, r), Tail(vs))

Writes(op) == op.o \in {"insert", "update", "big"}

Step(S, ev) ==
    CASE ev.e = "init" ->
            [e |-> "s", d |-> ev.d, t |-> ev.t, all |-> ev.all, key |-> ev.key, ident |-> ev.ident, cols |-> ev.cols, keys |-> ev.keys,
             idents |-> ev.idents, big |-> ev.big, tab |-> Rows(ev.all, ev.all, ev.prior), start |-> Rows(ev.all, ev.all, ev.prior),
             vs |-> <<>>, sent |-> 0, aff |-> 0, idon |-> FALSE, seq |-> {}, stop |-> "", refused |-> FALSE, ins |-> 0, upd |-> 0]
      [] ev.e = "row" -> [S EXCEPT !.vs = Append(@, ev.v)]
      [] ev.e = "srcerr" -> [S EXCEPT !.stop = "source"]
      [] ev.e = "exec" /\ ev.op.o = "big" ->
            [S EXCEPT !.ins = IF ev.op.upd THEN @ ELSE @ + ev.op.n, !.upd = IF ev.op.upd THEN @ + ev.op.n ELSE @,
                      !.stop = IF ev.fail THEN "database" ELSE @, !.aff = IF ev.fail THEN @ ELSE @ + 3]
      [] ev.e = "exec" ->
            LET x == Exec(S, ev.op)
            IN  IF ev.fail /\ ~ev.inj THEN [S EXCEPT !.stop = "database", !.refused = (~x.ok /\ x.why # "duplicate key") \/ @]
                ELSE IF ev.fail THEN [S EXCEPT !.stop = IF Writes(ev.op) \/ @ = "" THEN "database" ELSE @]
                ELSE [S EXCEPT !.tab = IF x.ok THEN x.t ELSE @, !.refused = IF x.ok THEN @ ELSE TRUE,
                               !.aff = IF Writes(ev.op) THEN @ + 3 ELSE @,
                               !.sent = IF ev.op.o = "insert" THEN Len(S.vs) ELSE @,
                               !.idon = IF ev.op.o = "identity" /\ x.ok THEN ev.op.on ELSE @,
                               !.seq = IF ev.op.o = "setval" /\ x.ok
                                       THEN {s \in @ : s[1] # ev.op.col} \cup {<<ev.op.col, S.tab[i][ev.op.max]>> : i \in 1..Len(S.tab)}
                                       ELSE @]
      [] OTHER -> S

Broken(S, ev) ==
    CASE ev.e = "exec" ->
           (IF ev.nargs > Params(S.d) THEN {<<"C20", "statement has too many parameters">>} ELSE {})
           \cup (IF S.stop # "" /\ Writes(ev.op) THEN {<<"C20", "rows are sent after an error: " \o S.stop>>} ELSE {})
           \cup (IF ev.fail /\ ~ev.inj /\ ~S.refused /\ (IF ev.op.o = "big" THEN TRUE ELSE Exec(S, ev.op).ok)
                 THEN {<<"C20", "statement fails">>} ELSE {})
           \cup (IF ev.op.o = "big" \/ S.refused \/ ev.fail THEN {}
                 ELSE LET x == Exec(S, ev.op)
                          expected == ~Upserts(S) /\ Collides(S, S.start, S.vs) /\ x.why = "duplicate key"
                      IN  IF x.ok \/ expected THEN {} ELSE {<<"C20", "statement refused: " \o x.why>>})
      [] ev.e = "end" ->
           LET want == OneByOne(S, S.start, S.vs)
               ok == ev.err = ""
           IN  IF ev.crashed THEN {<<"C20", "crash">>}
               ELSE (IF ok /\ S.stop # "" THEN {<<"C20", "error swallowed: " \o S.stop>>} ELSE {})
                    \cup (IF S.stop = "source" /\ ~ev.isrc THEN {<<"C20", "error of the source not reported">>} ELSE {})
                    \cup (IF ~ok /\ S.stop = "" /\ ~S.refused THEN {<<"C20", "fails without cause">>} ELSE {})
                    \cup (IF ev.real \/ S.refused \/ ev.affected = S.aff THEN {} ELSE {<<"C20", "rows affected">>})
                    \cup (IF ~ok \/ ~S.big \/ (S.ins = ev.total /\ S.upd \in {0, ev.total}) THEN {} ELSE {<<"C20", "number of rows sent">>})
                    \cup (IF ~ok \/ S.big \/ S.refused \/ SameTable(S.tab, want) THEN {} ELSE {<<"C20", "table not as after one row at a time">>})
                    \cup (IF S.big \/ ~ev.real \/ S.refused \/ SameTable(S.tab, Rows(S.all, S.all, ev.rows)) THEN {} ELSE {<<"C20", "observed table differs">>})
                    \cup (IF ok /\ S.idon THEN {<<"C20", "identity insert left on">>} ELSE {})
                    \cup (IF ok /\ ~S.big /\ S.d = "postgres" /\ S.vs # <<>>
                             /\ \E c \in Range(S.idents) \cap Range(S.cols) : \E i \in 1..Len(S.tab) : <<c, S.tab[i][c]>> \notin S.seq
                          THEN {<<"C20", "automatic values would collide">>} ELSE {})
      [] OTHER -> {}
=============================================================================
