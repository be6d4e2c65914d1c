-------------------------------- MODULE Load --------------------------------
(* Loading files into a database. A database maps tables to columns, keys and *)
(* rows; a load is a list of arguments, each a file, a directory or an        *)
(* archive. The files it stands for are loaded one after the other: SQL files *)
(* are executed, CSV files are upserted as a whole or not at all. Databases   *)
(* after each file are predicted here and compared with what was observed     *)
(* (SQLite) or with what the statements sent would have done (the others).    *)
(*                                                                            *)
(* Broken(S, ev) is the set of <<property, clause>> an event violates and     *)
(* Step(S, ev) the state after it.                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

B == INSTANCE Batch

Null == "~"
None == [e |-> "none"]
Range(s) == {s[i] : i \in 1..Len(s)}

(***************************** What a field means ****************************)
StartsWith(f, p) == Len(f) >= Len(p) /\ SubSeq(f, 1, Len(p)) = p
HexChars == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f"}
IsHex(h) == Len(h) % 2 = 0 /\ \A i \in 1..Len(h) : SubSeq(h, i, i) \in HexChars
Binary == {"BYTEA", "BINARY", "VARBINARY", "TINYBLOB", "BLOB", "MEDIUMBLOB", "LONGBLOB", "UUID"}

(* Timestamps that are read as seconds since 1970 when that is asked for. *)
Stamps == ("2020-01-02 03:04:05" :> "1577934245" @@
           "2021-12-31T23:59:59Z" :> "1640995199" @@
           "1999-05-06" :> "925948800" @@
           "2020-01-02 03:04:05.123" :> "1577934245" @@
           "2020-01-02T03:04:05.5" :> "1577934245" @@
           "2020-01-02T03:04:05.5+02:00" :> "1577927045" @@
           "2020-01-02 03:04:05-07:00" :> "1577959445" @@
           "2020-01-02 03:04" :> "1577934240" @@
           "2020-01-02T03:04Z" :> "1577934240" @@
           "2020-01-02T03:04:05" :> "1577934245")

(* What arrays, written the way of JSON or of Postgres, stand for. *)
Arrays == ("[]" :> "a:[]" @@
           "[\"a\",\"b c\"]" :> "a:[\"a\",\"b c\"]" @@
           "[\"x,y\",\"q\\\"q\",\"back\\\\slash\"]" :> "a:[\"x,y\",\"q\\\"q\",\"back\\\\slash\"]" @@
           "[\"two\\nlines\"]" :> "a:[\"two\\nlines\"]" @@
           "[\"\\u003cb\\u003e\"]" :> "a:[\"<b>\"]" @@
           "[null,\"null\"]" :> "a:[null,\"null\"]" @@
           "[\"\",\"\"]" :> "a:[\"\",\"\"]" @@
           "[\"{x}\"]" :> "a:[\"{x}\"]" @@
           "{a,\"b c\"}" :> "a:[\"a\",\"b c\"]" @@
           "{}" :> "a:[]" @@
           "[1,2]" :> "a:[\"1\",\"2\"]" @@
           "[[1,2],[3,4]]" :> "a:[[\"1\",\"2\"],[\"3\",\"4\"]]" @@
           "[null, -7]" :> "a:[null,\"-7\"]" @@
           "{1,2}" :> "a:[\"1\",\"2\"]")

Bad == "!"
Decode(o, ty, f) ==
    IF ~o.nonull /\ f = o.null THEN Null
    ELSE IF ty \in {"TEXT[]", "INT[]"} /\ f \in DOMAIN Arrays THEN Arrays[f]
    ELSE IF ty = "UUID" /\ o.pg /\ ~o.nobin /\ StartsWith(f, o.bin)
         THEN LET h == SubSeq(f, Len(o.bin) + 1, Len(f))
              IN  IF IsHex(h) /\ Len(h) = 32
                  THEN SubSeq(h, 1, 8) \o "-" \o SubSeq(h, 9, 12) \o "-" \o SubSeq(h, 13, 16) \o "-" \o SubSeq(h, 17, 20) \o "-" \o SubSeq(h, 21, 32) ELSE Bad
    ELSE IF ty \in Binary /\ ~o.nobin /\ StartsWith(f, o.bin)
         THEN LET h == SubSeq(f, Len(o.bin) + 1, Len(f)) IN IF IsHex(h) THEN "x:" \o h ELSE Bad
    ELSE IF o.tsint /\ ty \in {"TIMESTAMP", "DATETIME", "DATE"} /\ f \in DOMAIN Stamps THEN Stamps[f]
    ELSE f

(****************************** What a file does *****************************)
Tab(t) == [cols |-> t.cols, ty |-> t.ty, nn |-> t.nn, key |-> t.key, uniq |-> <<>>, rows |-> B!Rows(t.cols, t.cols, t.rows)]

Ok(db) == [ok |-> TRUE, db |-> db, why |-> ""]
No(why) == [ok |-> FALSE, db |-> <<>>, why |-> why]

Collide(cols, rows) == \E i, j \in 1..Len(rows) : i < j /\ B!Same(cols, rows[i], rows[j])

(* One row: inserted, or put in the place of the row with its key. *)
Put(T, header, r) ==
    LET h == B!Hit(T.key, T.rows, r)
        upsert == Range(T.key) \subseteq Range(header) /\ T.key # <<>>
        rows == IF h = {} THEN Append(T.rows, r)
                ELSE LET i == CHOOSE i \in h : TRUE
                     IN  [T.rows EXCEPT ![i] = [c \in DOMAIN r |-> IF c \in Range(header) THEN r[c] ELSE @[c]]]
    IN  IF \E c \in Range(T.nn) : r[c] = Null THEN [ok |-> FALSE, rows |-> <<>>, why |-> "missing value"]
        ELSE IF h # {} /\ ~upsert THEN [ok |-> FALSE, rows |-> <<>>, why |-> "duplicate key"]
        ELSE IF \E u \in Range(T.uniq) : Collide(u, rows) THEN [ok |-> FALSE, rows |-> <<>>, why |-> "duplicate value"]
        ELSE [ok |-> TRUE, rows |-> rows, why |-> ""]

RECURSIVE PutAll(_, _, _, _)
PutAll(o, T, header, recs) ==
    IF recs = <<>> THEN [ok |-> TRUE, rows |-> T.rows, why |-> ""]
    ELSE LET rec == Head(recs)
             v == [i \in 1..Len(rec) |-> Decode(o, IF i <= Len(header) THEN T.ty[header[i]] ELSE "", rec[i])]
             p == Put(T, header, B!Row(T.cols, header, v))
         IN  IF Len(rec) # Len(header) THEN [ok |-> FALSE, rows |-> <<>>, why |-> "number of fields"]
             ELSE IF Bad \in Range(v) THEN [ok |-> FALSE, rows |-> <<>>, why |-> "binary value"]
             ELSE IF ~p.ok THEN p
             ELSE PutAll(o, [T EXCEPT !.rows = p.rows], header, Tail(recs))

Apply(o, db, f) ==
    CASE f.kind = "csv" ->
            IF f.empty THEN No("empty file")
            ELSE IF f.recs = <<>> THEN Ok(db)
            ELSE IF f.t \notin DOMAIN db THEN No("no such table")
            ELSE IF ~(Range(f.cols) \subseteq Range(db[f.t].cols)) THEN No("no such column")
            ELSE LET p == PutAll(o, db[f.t], f.cols, f.recs)
                 IN  IF p.ok THEN Ok([db EXCEPT ![f.t].rows = p.rows]) ELSE No(p.why)
      [] f.kind = "create" -> IF f.t \in DOMAIN db THEN No("table exists") ELSE Ok(db @@ (f.t :> Tab(f.tab)))
      [] f.kind = "unique" ->
            IF f.t \notin DOMAIN db THEN No("no such table")
            ELSE IF f.cols \in Range(db[f.t].uniq) THEN No("index exists")
            ELSE IF Collide(f.cols, db[f.t].rows) THEN No("duplicate value")
            ELSE Ok([db EXCEPT ![f.t].uniq = Append(@, f.cols)])
      [] f.kind = "mark" ->
            IF f.t \notin DOMAIN db THEN No("no such table")
            ELSE Ok([db EXCEPT !["zlog"].rows = Append(@, [what |-> f.name, n |-> ToString(Len(db[f.t].rows))])])
      [] OTHER -> Ok(db)

(*************************** Which files are loaded **************************)
(* A directory or archive: schema.sql, the CSV files, indexes.sql and then    *)
(* constraints.sql, of the files at the top (or in the one directory named as *)
(* the archive). Other files are left alone.                                  *)
Named(fs, n) == SelectSeq(fs, LAMBDA f : f.top /\ f.base = n)
Csvs(fs) == SelectSeq(fs, LAMBDA f : f.top /\ f.kind = "csv")
Order(fs) == Named(fs, "schema.sql") \o Csvs(fs) \o Named(fs, "indexes.sql") \o Named(fs, "constraints.sql")
Plan(items) ==
    LET Rec[i \in 0..Len(items)] ==
            IF i = 0 THEN <<>> ELSE Rec[i - 1] \o (IF items[i].kind = "file" THEN items[i].files ELSE Order(items[i].files))
    IN  Rec[Len(items)]

(* The databases after no file, one file, ... up to the first that fails. *)
RECURSIVE Run(_, _, _, _)
Run(o, db, plan, seen) ==
    IF plan = <<>> THEN [dbs |-> Append(seen, db), why |-> ""]
    ELSE LET x == Apply(o, db, Head(plan))
         IN  IF x.ok THEN Run(o, x.db, Tail(plan), Append(seen, db)) ELSE [dbs |-> Append(seen, db), why |-> x.why]

(* Files whose order is not fixed: the data files of a directory or zip       *)
(* archive are loaded concurrently, except on SQLite.                         *)
Concurrent(S) == S.d # "sqlite" /\ \E i \in 1..Len(S.items) : S.items[i].kind \in {"dir", "zip"} /\ Len(Csvs(S.items[i].files)) > 1

SameRows(a, b) == B!SameTable(a, b)
SameDb(a, b) == DOMAIN a = DOMAIN b /\ \A t \in DOMAIN a : SameRows(a[t].rows, b[t].rows)

(******************************** Connections ********************************)
(* What has been written in open transactions, by connection. *)
Idle == [on |-> FALSE, over |-> <<>>, sess |-> <<>>]
Conn(S, c) == IF c \in DOMAIN S.conns THEN S.conns[c] ELSE Idle
View(S, c) == IF Conn(S, c).on THEN Conn(S, c).over @@ S.db ELSE S.db
Put1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* An INSERT or UPDATE on the tables as the connection sees them. *)
Target(S, c, op) == CHOOSE t \in DOMAIN View(S, c) : op.t = S.cur \o "." \o t
Known(S, c, op) == \E t \in DOMAIN View(S, c) : op.t = S.cur \o "." \o t
Sent(S, c, op) ==
    IF op.o = "bad" THEN No("syntax")
    ELSE IF ~Known(S, c, op) THEN No("no such table")
    ELSE LET T == View(S, c)[Target(S, c, op)]
         IN  LET x == B!Exec([d |-> S.d, t |-> op.t, all |-> T.cols, key |-> T.key, ident |-> <<>>, tab |-> T.rows, idon |-> FALSE], op)
             IN  IF x.ok THEN Ok([T EXCEPT !.rows = x.t]) ELSE No(x.why)

Start(ev, db) == [e |-> "s", d |-> ev.d, cur |-> ev.cur, items |-> ev.items, opts |-> ev.opts, fk |-> ev.fk, db |-> db, start |-> db,
                  conns |-> <<>>, sess |-> <<>>, refused |-> FALSE, failed |-> FALSE]

Step(S, ev) ==
    CASE ev.e = "init" -> Start(ev, [t \in DOMAIN ev.tabs |-> Tab(ev.tabs[t])])
      [] ev.e = "again" -> S
      [] ev.e = "call" ->
            LET c == ev.conn
                C == Conn(S, c)
            IN  CASE ev.kind = "begin" -> [S EXCEPT !.conns = Put1(@, c, [on |-> TRUE, over |-> <<>>, sess |-> <<>>])]
                  [] ev.kind = "commit" ->
                        [S EXCEPT !.db = IF ev.fail THEN @ ELSE C.over @@ @, !.conns = Put1(@, c, Idle)]
                  [] ev.kind = "rollback" ->
                        [S EXCEPT !.conns = Put1(@, c, Idle),
                                  \* Postgres takes back settings made in the transaction
                                  !.sess = IF S.d = "postgres" /\ C.on THEN C.sess @@ @ ELSE @]
                  [] ev.kind = "set" ->
                        LET k == c \o "/" \o ev.var
                        IN  [S EXCEPT !.sess = Put1(@, k, [was |-> IF k \in DOMAIN @ THEN @[k].was ELSE ev.was, is |-> ev.val]),
                                      !.conns = IF C.on /\ k \notin DOMAIN C.sess THEN Put1(@, c, [C EXCEPT !.sess = Put1(@, k, [was |-> ev.was, is |-> ev.was])]) ELSE @]
                  [] ev.kind = "sql" ->
                        LET x == Apply(S.opts, S.db, ev.file)
                        IN  IF x.ok THEN [S EXCEPT !.db = x.db] ELSE [S EXCEPT !.refused = TRUE]
                  [] OTHER ->
                        LET x == Sent(S, c, ev.op)
                        IN  IF ~x.ok THEN [S EXCEPT !.refused = TRUE]
                            ELSE IF C.on THEN [S EXCEPT !.conns = Put1(@, c, [C EXCEPT !.over = Put1(@, Target(S, c, ev.op), x.db)])]
                            ELSE [S EXCEPT !.db[Target(S, c, ev.op)] = x.db]
      [] ev.e = "end" ->
            LET R == Run(S.opts, S.start, Plan(S.items), <<>>)
                last == R.dbs[Len(R.dbs)]
                seen == IF ev.real
                        THEN LET m == {i \in 1..Len(R.dbs) : \A t \in DOMAIN R.dbs[i] :
                                          t \in DOMAIN ev.tabs /\ SameRows(R.dbs[i][t].rows, B!Rows(R.dbs[i][t].cols, R.dbs[i][t].cols, ev.tabs[t]))}
                             IN  IF m = {} THEN last ELSE R.dbs[CHOOSE i \in m : \A j \in m : j <= i]
                        ELSE S.db
            IN  [S EXCEPT !.start = seen, !.db = seen, !.conns = <<>>]
      [] OTHER -> S

(* A data file without rows may be checked against its table or be left alone. *)
Vague(S) == \E i \in 1..Len(Plan(S.items)) : Plan(S.items)[i].kind = "csv" /\ Plan(S.items)[i].recs = <<>>

(* The rows a database was observed to have are those predicted. *)
Observed(db, tabs) ==
    /\ DOMAIN db = DOMAIN tabs
    /\ \A t \in DOMAIN db : SameRows(db[t].rows, B!Rows(db[t].cols, db[t].cols, tabs[t]))

(* Each table has what it had after some number of its files. *)
PerTable(S, dbs) ==
    \A t \in DOMAIN S.db : \E i \in 1..Len(dbs) : t \in DOMAIN dbs[i] /\ SameRows(S.db[t].rows, dbs[i][t].rows)
(* Concurrent loads: every data file has been loaded or has not. *)
RECURSIVE After(_, _, _)
After(S, rows, fs) ==
    {rows} \cup (IF fs = <<>> THEN {} ELSE After(S, rows, Tail(fs)) \cup
        (LET x == Apply(S.opts, [S.start EXCEPT ![Head(fs).t].rows = rows], Head(fs))
         IN  IF x.ok THEN After(S, x.db[Head(fs).t].rows, Tail(fs)) ELSE {}))
FileWise(S) ==
    \A t \in DOMAIN S.start \ {"zlog"} :
        LET fs == SelectSeq(Plan(S.items), LAMBDA f : f.kind = "csv" /\ f.t = t)
        IN  \E rows \in After(S, S.start[t].rows, fs) : SameRows(S.db[t].rows, rows)

Broken(S, ev) ==
    CASE ev.e = "call" ->
            LET x == IF ev.kind = "exec" THEN Sent(S, ev.conn, ev.op) ELSE Ok(<<>>)
                R == Run(S.opts, S.start, Plan(S.items), <<>>)
            IN  (IF ev.kind = "begin" /\ Conn(S, ev.conn).on THEN {<<"C15", "transaction begun inside a transaction">>} ELSE {})
                \cup (IF ev.kind = "exec" /\ ~S.refused /\ ~x.ok /\ R.why = "" THEN {<<"C15", "statement refused: " \o x.why>>} ELSE {})
                \cup (IF ev.kind = "sql" /\ ~S.refused /\ R.why = "" /\ ~Apply(S.opts, S.db, ev.file).ok
                      THEN {<<"C15", "file loaded too early: " \o Apply(S.opts, S.db, ev.file).why>>} ELSE {})
      [] ev.e = "end" ->
            LET R == Run(S.opts, S.start, Plan(S.items), <<>>)
                last == R.dbs[Len(R.dbs)]
                match(i) == IF ev.real THEN Observed(R.dbs[i], ev.tabs) ELSE SameDb(R.dbs[i], S.db)
                ok == ev.err = ""
            IN  IF ev.crashed THEN {<<"C15", "crash">>}
                ELSE IF S.refused THEN {}
                ELSE (IF ok /\ R.why # "" THEN {<<"C15", "loaded although: " \o R.why>>} ELSE {})
                     \cup (IF ok /\ ev.fault # "" THEN {<<"C15", "error swallowed: " \o ev.fault>>} ELSE {})
                     \cup (IF ~ok /\ R.why = "" /\ ev.fault = "" /\ ~Vague(S) THEN {<<"C15", "fails without cause">>} ELSE {})
                     \cup (IF ok /\ R.why = "" /\ ~match(Len(R.dbs)) THEN {<<"C15", "tables not as after loading the files in order">>} ELSE {})
                     \cup (IF ~ok /\ ev.fault = "" /\ ~Concurrent(S) /\ R.why # "" /\ ~match(Len(R.dbs))
                              /\ ~(Vague(S) /\ \E i \in 1..Len(R.dbs) : match(i))
                           THEN {<<"C15", "failed file: tables not as before it">>} ELSE {})
                     \cup (IF ~ok /\ ev.fault # "" /\ ~Concurrent(S) /\ ~(\E i \in 1..Len(R.dbs) : match(i))
                           THEN {<<"C15", "interrupted file: tables not as before it">>} ELSE {})
                     \cup (IF ~ok /\ Concurrent(S) /\ ~FileWise(S) THEN {<<"C15", "part of a file is left behind">>} ELSE {})
                     \cup (IF ev.fault # "session" /\ ev.real /\ ev.fk # S.fk THEN {<<"C15", "session setting not restored">>} ELSE {})
                     \cup (IF ev.fault # "session" /\ (\E k \in DOMAIN S.sess : S.sess[k].is # S.sess[k].was)
                           THEN {<<"C15", IF ~ok /\ Concurrent(S) THEN "session setting not restored: load cancelled because another file failed"
                                          ELSE "session setting not restored">>} ELSE {})
                     \cup (IF \E c \in DOMAIN S.conns : S.conns[c].on THEN {<<"C15", "transaction left open">>} ELSE {})
      [] OTHER -> {}
=============================================================================
