----------------------------- MODULE HistoryMCs -----------------------------
(* The directories explored by HistoryMC.                                     *)
EXTENDS HistoryMC
Fl(f, n, fail) == [f |-> f, ver |-> 1, n |-> n, fail |-> fail, crlf |-> FALSE]
DSqlite == "sqlite"
DMysql == "mysql"
DirShared == <<Fl("1.sql", 1, 0), Fl("2.sql", 2, 2)>>
DirOff == <<Fl("1.sql", 1, 0), Fl("2.txoff.sql", 2, 2), Fl("2.undo.sql", 1, 0)>>
DirOwn == <<Fl("1.tx.sql", 2, 0), Fl("2.txoff.sql", 1, 0)>>
DirRep == <<Fl("1.sql", 1, 0), Fl("repeatable/r.sql", 1, 0)>>
DirThree == <<Fl("1.sql", 1, 0), Fl("2.sql", 2, 2), Fl("repeatable/r.sql", 1, 0)>>
DirMysql == <<Fl("1.sql", 1, 0), Fl("2.sql", 2, 2), Fl("2.undo.sql", 1, 0), Fl("3.tx.sql", 1, 0)>>
=============================================================================
