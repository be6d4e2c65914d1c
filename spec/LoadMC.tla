------------------------------- MODULE LoadMC -------------------------------
(* A load as a state machine: the entries of a directory in any order, one    *)
(* transaction for each data file, rows sent in batches, and a failure at any *)
(* step. The events it produces must break nothing, whatever way the entries  *)
(* are ordered and wherever it fails.                                         *)
EXTENDS Load

CONSTANTS MaxRecs, Faults, AllOrders

Cols == <<"id", "x">>
T == [cols |-> Cols, ty |-> ("id" :> "TEXT" @@ "x" :> "TEXT"), nn |-> <<>>, key |-> <<"id">>, uniq |-> <<>>, rows |-> <<>>]
Log == [T EXCEPT !.cols = <<"what", "n">>, !.ty = ("what" :> "TEXT" @@ "n" :> "TEXT"), !.key = <<>>]

Recs == UNION {[1..n -> {<<k, v>> : k \in {"1", "2"}, v \in {"a", "NULL"}}] : n \in 1..MaxRecs}
File(name, kind, t) == [name |-> name, base |-> name, top |-> TRUE, kind |-> kind, t |-> t, cols |-> <<>>, recs |-> <<>>, empty |-> FALSE, tab |-> T]
Entries(rt, ru) == <<[File("t.csv", "csv", "t") EXCEPT !.cols = Cols, !.recs = rt],
                     [File("u.csv", "csv", "u") EXCEPT !.cols = <<"x", "id">>, !.recs = ru],
                     File("schema.sql", "create", "u"), File("constraints.sql", "mark", "u"),
                     [File("indexes.sql", "unique", "t") EXCEPT !.cols = <<"x">>]>>
Perms(n) == IF AllOrders THEN {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
            ELSE {[i \in 1..n |-> ((i + k) % n) + 1] : k \in 1..n}
Opts == [null |-> "NULL", bin |-> "0x", nonull |-> FALSE, nobin |-> FALSE, tsint |-> FALSE, pg |-> TRUE]

VARIABLES sc, S, bad, plan, at, pc, w, err

vars == <<sc, S, bad, plan, at, pc, w, err>>

Emit(evs) ==
    LET Rec[k \in 0..Len(evs)] == IF k = 0 THEN [s |-> S, b |-> bad]
                                  ELSE [s |-> Step(Rec[k - 1].s, evs[k]), b |-> Rec[k - 1].b \cup Broken(Rec[k - 1].s, evs[k])]
    IN  /\ S' = Rec[Len(evs)].s
        /\ bad' = Rec[Len(evs)].b

Begin0(s) == [e |-> "init", d |-> "postgres", cur |-> "public", items |-> <<[kind |-> "tgz", files |-> s.files]>>, opts |-> Opts, fk |-> FALSE,
             tabs |-> ("t" :> [T EXCEPT !.rows = s.prior] @@ "zlog" :> Log)]

Init == \E rt \in Recs, ru \in {<<<<"a", "1">>>>, <<<<"a", "1">>, <<"b", "1">>>>}, p \in Perms(5), prior \in {<<>>, <<<<"1", "b">>>>, <<<<"2", "a">>>>}, size \in 1..2, f \in Faults :
    /\ sc = [files |-> [i \in 1..5 |-> Entries(rt, ru)[p[i]]], prior |-> prior, size |-> size, fault |-> f]
    /\ S = Step(None, Begin0(sc)) /\ bad = {}
    /\ plan = Plan(<<[kind |-> "tgz", files |-> sc.files]>>) /\ at = 0 /\ pc = "file" /\ w = 0 /\ err = ""

Call(k, fail) == [e |-> "call", conn |-> "0", kind |-> k, fail |-> fail, var |-> "", val |-> "", was |-> ""]
Hit(k) == sc.fault = k
File1 == Head(plan)
Next1(evs, to) == Emit(evs) /\ pc' = to /\ w' = w + 1

Open == /\ pc = "file" /\ plan # <<>> /\ File1.kind = "csv"
        /\ IF Hit(w + 1) THEN err' = "begin" /\ Next1(<<>>, "over")
           ELSE err' = err /\ Next1(<<Call("begin", FALSE)>>, "rows")
        /\ at' = 0 /\ UNCHANGED <<sc, plan>>
Batch1 == SubSeq(File1.recs, at + 1, IF at + sc.size < Len(File1.recs) THEN at + sc.size ELSE Len(File1.recs))
Op == [o |-> "insert", t |-> "public." \o File1.t, cols |-> File1.cols,
       rows |-> [i \in 1..Len(Batch1) |-> [j \in 1..2 |-> Decode(Opts, "TEXT", Batch1[i][j])]],
       conf |-> "update", keys |-> <<"id">>, set |-> <<<<"x", "x">>>>, over |-> FALSE, on |-> FALSE]
(* A statement naming a key twice is refused, as is a missing table. *)
Rows == /\ pc = "rows" /\ at < Len(File1.recs)
        /\ IF Hit(w + 1) \/ ~Sent(S, "0", Op).ok
           THEN err' = "exec" /\ Next1(<<>>, "undo")
           ELSE err' = err /\ Next1(<<Call("exec", FALSE) @@ [op |-> Op]>>, "rows")
        /\ at' = at + sc.size /\ UNCHANGED <<sc, plan>>
Commit == /\ pc = "rows" /\ at >= Len(File1.recs)
          /\ IF Hit(w + 1) THEN err' = "commit" /\ Next1(<<Call("commit", TRUE)>>, "over")
             ELSE err' = err /\ Next1(<<Call("commit", FALSE)>>, "next")
          /\ UNCHANGED <<sc, plan, at>>
Undo == pc = "undo" /\ Next1(<<Call("rollback", FALSE)>>, "over") /\ UNCHANGED <<sc, plan, at, err>>
Script == /\ pc = "file" /\ plan # <<>> /\ File1.kind # "csv"
          /\ IF Hit(w + 1) \/ ~Apply(Opts, S.db, File1).ok THEN err' = "exec" /\ Next1(<<>>, "over")
             ELSE err' = err /\ Next1(<<Call("sql", FALSE) @@ [file |-> File1]>>, "next")
          /\ UNCHANGED <<sc, plan, at>>
Next2 == pc = "next" /\ pc' = "file" /\ plan' = Tail(plan) /\ UNCHANGED <<sc, S, bad, at, w, err>>
End == /\ (pc = "over" \/ (pc = "file" /\ plan = <<>>)) /\ pc' = "done"
       /\ Emit(<<[e |-> "end", err |-> err, crashed |-> FALSE, real |-> FALSE, fault |-> IF sc.fault # 0 THEN err ELSE "", fk |-> FALSE, tabs |-> <<>>]>>)
       /\ UNCHANGED <<sc, plan, at, w, err>>
Next == Open \/ Rows \/ Commit \/ Undo \/ Script \/ Next2 \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* Statements naming a key twice are for the loader to avoid; see Batch. *)
Twice == \E i, j \in 1..MaxRecs : LET r == (CHOOSE f \in Range(sc.files) : f.name = "t.csv").recs IN i < j /\ j <= Len(r) /\ j - i < sc.size /\ r[i][1] = r[j][1]
TwiceU == sc.size > 1 /\ Len((CHOOSE f \in Range(sc.files) : f.name = "u.csv").recs) > 1
NothingBroken == Twice \/ TwiceU \/ bad = {}
(* The order of the entries does not matter. *)
Sorted == pc = "file" /\ w = 0 => [i \in 1..5 |-> plan[i].name] = <<"schema.sql", plan[2].name, plan[3].name, "indexes.sql", "constraints.sql">>
(* Loading a data file again changes nothing. *)
Again == pc = "done" /\ err = "" =>
            \A f \in Range(sc.files) : f.kind = "csv" =>
                LET x == Apply(Opts, S.db, f) IN ~x.ok \/ Apply(Opts, x.db, f) = x
(* One row for each key, and rows with other keys are kept. *)
Keyed == \A t \in DOMAIN S.db \ {"zlog"} : ~Collide(<<"id">>, S.db[t].rows)
Kept == \A i \in 1..Len(sc.prior) : \E r \in Range(S.db["t"].rows) : r["id"] = sc.prior[i][1]
Ends == <>(pc = "done")
=============================================================================
