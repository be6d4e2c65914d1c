----------------------------- MODULE HistoryGen -----------------------------
(* Enumerates every small scenario: each directory of at most three scripts   *)
(* of the six kinds, which of them fails (if any), what was recorded before,  *)
(* and what happens next.  The scenarios are executed by the harness and the  *)
(* recorded traces validated by HistoryTrace.                                 *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Kinds == <<"1.sql", "2.sql", "3.tx.sql", "4.txoff.sql", "5.sql", "repeatable/r.sql">>
Undo == "4.undo.sql"
Dialects == {"sqlite", "mysql", "postgres", "sqlserver"}
(* After the first run: run again, repair the failing script and run, edit the *)
(* repeatable script and run, or forget one script and run.                    *)
Tails == {"again", "repair", "edit", "forget"}

Put(f, ver, n, fail) == [op |-> "put", file |-> f, content |-> [ver |-> ver, n |-> n, fail |-> fail, crlf |-> FALSE]]
Cmd(op, args) == [op |-> op, args |-> args]
Ls == [op |-> "ls", flags |-> <<"all">>]

RECURSIVE SeqOf(_, _)
SeqOf(s, i) == IF i > Len(Kinds) THEN <<>> ELSE (IF Kinds[i] \in s THEN <<Kinds[i]>> ELSE <<>>) \o SeqOf(s, i + 1)

Stmts(f) == IF f \in {"2.sql", "4.txoff.sql"} THEN 2 ELSE 1

Tail_(t, files, fail) ==
    CASE t = "again" -> <<>>
      [] t = "repair" -> IF fail = "" THEN <<>> ELSE <<Put(fail, 2, Stmts(fail), 0)>>
      [] t = "edit" -> IF "repeatable/r.sql" \in files THEN <<Put("repeatable/r.sql", 3, 2, 0)>> ELSE <<>>
      [] t = "forget" -> <<Cmd("rm", <<CHOOSE f \in files : TRUE>>)>>

Steps(files, fail, before, t) ==
    LET s == SeqOf(files, 1)
    IN  [i \in 1..Len(s) |-> Put(s[i], 1, Stmts(s[i]), IF s[i] = fail THEN Stmts(s[i]) ELSE 0)]
        \o (IF "4.txoff.sql" \in files THEN <<Put(Undo, 1, 1, 0)>> ELSE <<>>)
        \o (IF before = {} THEN <<>> ELSE <<Cmd("touch", SeqOf(before, 1))>>)
        \o <<Ls, Cmd("migrate", <<>>), Ls>>
        \o Tail_(t, files, fail)
        \o <<Ls, Cmd("migrate", <<>>), Ls>>

Files == {s \in SUBSET {Kinds[i] : i \in 1..Len(Kinds)} : Cardinality(s) \in 1..3}
Cases == UNION {{<<d, files, fail, before, t>> : d \in Dialects, fail \in files \cup {""}, before \in {b \in SUBSET files : Cardinality(b) <= 1}, t \in Tails} : files \in Files}

RECURSIVE ToSeq(_)
ToSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o ToSeq(s \ {x})

Sess(d) == CASE d = "postgres" -> "0" [] d = "mysql" -> "50" [] d = "sqlserver" -> "-1" [] OTHER -> ""
Scenario(c) == [id |-> "gen-" \o ToString(c), dialect |-> c[1], table |-> "sqddl_history", api |-> "struct", drv |-> "pq",
                sess |-> Sess(c[1]), dirarg |-> "", steps |-> Steps(c[2], c[3], c[4], c[5])]

VARIABLE c
GInit == c \in Cases
GNext == FALSE /\ c' = c
(* Evaluated once per initial state: writes the scenario out. *)
Write == PrintT("SCENARIO " \o ToJson(Scenario(c)))
=============================================================================
