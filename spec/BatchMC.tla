------------------------------ MODULE BatchMC -------------------------------
(* A batch insert as a state machine: rows are taken from the source until a  *)
(* batch is full, the batch is sent, what is left at the end is sent, and the *)
(* identity values are looked after. Every small table, stream of rows, batch *)
(* size and failure is explored; the events it produces must break nothing.   *)
EXTENDS Batch

CONSTANTS MaxRows, Dialects

Keys == {"1", "2"}
Vals == {"a", "b"}
All == <<"id", "x">>
Pairs == {<<k, v>> : k \in Keys, v \in Vals}
Priors == {<<>>} \cup {<<p>> : p \in Pairs} \cup {<<<<"1", "a">>, <<"2", "b">>>>}
Streams == UNION {[1..n -> Pairs] : n \in 0..MaxRows}

Distinct(rows, size) == \A i, j \in 1..Len(rows) : i < j /\ j - i < size => rows[i][1] # rows[j][1]

VARIABLES sc, S, bad, i, n, buf, pc, w

vars == <<sc, S, bad, i, n, buf, pc, w>>

Emit(evs) ==
    LET Rec[k \in 0..Len(evs)] == IF k = 0 THEN [s |-> S, b |-> bad]
                                  ELSE [s |-> Step(Rec[k - 1].s, evs[k]), b |-> Rec[k - 1].b \cup Broken(Rec[k - 1].s, evs[k])]
    IN  /\ S' = Rec[Len(evs)].s
        /\ bad' = Rec[Len(evs)].b

Start(s) == [e |-> "init", d |-> s.d, t |-> "t", all |-> All, key |-> s.key, ident |-> s.ident, prior |-> s.prior, cols |-> All,
             keys |-> s.keys, idents |-> s.ident, big |-> FALSE]

Init == \E d \in Dialects, p \in Priors, r \in Streams, size \in 1..3, keyed \in BOOLEAN, id \in BOOLEAN, err \in 0..(MaxRows + 1), fault \in 0..2 :
    /\ (err # 0 => fault = 0) /\ err <= Len(r)
    /\ (id => d \in {"postgres", "sqlserver"})
    /\ (keyed /\ d \in {"postgres", "sqlserver"} => Distinct(r, size))
    /\ sc = [d |-> d, prior |-> p, rows |-> r, size |-> size, key |-> IF keyed THEN <<"id">> ELSE <<>>, keys |-> IF keyed THEN <<"id">> ELSE <<>>,
             ident |-> IF id THEN <<"id">> ELSE <<>>, err |-> err, fault |-> fault]
    /\ S = Step(None, Start(sc)) /\ bad = {}
    /\ i = 0 /\ n = 0 /\ buf = <<>> /\ pc = "begin" /\ w = 0

Exe(op, fail) == [e |-> "exec", op |-> op, fail |-> fail, inj |-> fail, nargs |-> 2 * Len(op.rows)]
Op(o) == [o |-> o, t |-> "t", cols |-> All, rows |-> <<>>, conf |-> "none", keys |-> <<>>, set |-> <<>>, over |-> FALSE, on |-> FALSE]
Insert == [Op("insert") EXCEPT !.rows = buf, !.over = (sc.d = "postgres" /\ sc.ident # <<>>),
              !.conf = IF sc.keys = <<>> THEN "none" ELSE CASE sc.d = "mysql" -> "duplicate" [] sc.d = "sqlserver" -> "absent" [] OTHER -> "update",
              !.keys = IF sc.d = "mysql" THEN <<>> ELSE sc.keys,
              !.set = IF sc.keys = <<>> \/ sc.d = "sqlserver" THEN <<>> ELSE <<<<"x", "x">>>>]
Update == [Op("update") EXCEPT !.rows = buf, !.keys = sc.keys, !.set = <<<<"x", "x">>>>]

Updates == sc.d = "sqlserver" /\ sc.keys # <<>>

End(err, src) == [e |-> "end", err |-> err, crashed |-> FALSE, affected |-> 3 * n, isrc |-> src, total |-> Len(sc.rows), real |-> FALSE, rows |-> <<>>]

Begin ==
    /\ pc = "begin" /\ pc' = "take"
    /\ IF sc.d = "sqlserver" /\ sc.ident # <<>> THEN Emit(<<Exe([Op("identity") EXCEPT !.on = TRUE], FALSE)>>) ELSE UNCHANGED <<S, bad>>
    /\ UNCHANGED <<sc, i, n, buf, w>>
Take ==
    /\ pc = "take" /\ Len(buf) < sc.size /\ i < Len(sc.rows)
    /\ i' = i + 1
    /\ IF i + 1 = sc.err
       THEN Emit(<<[e |-> "srcerr"]>>) /\ pc' = "source" /\ buf' = buf
       ELSE Emit(<<[e |-> "row", v |-> sc.rows[i + 1]]>>) /\ pc' = pc /\ buf' = Append(buf, sc.rows[i + 1])
    /\ UNCHANGED <<sc, n, w>>
Flush ==
    /\ pc = "take" /\ buf # <<>> /\ (Len(buf) = sc.size \/ i = Len(sc.rows))
    /\ pc' = IF Updates THEN "update" ELSE "insert"
    /\ UNCHANGED <<sc, S, bad, i, n, buf, w>>
Send(at, op, then) ==
    /\ pc = at /\ w' = w + 1
    /\ LET fail == (w + 1 = sc.fault) \/ ~Exec(S, op).ok
       IN  /\ Emit(<<Exe(op, fail)>>)
           /\ n' = IF fail THEN n ELSE n + 1
           /\ pc' = IF fail THEN "failed" ELSE then
    /\ buf' = IF at = "insert" THEN <<>> ELSE buf
    /\ UNCHANGED <<sc, i>>
Finish ==
    /\ pc = "take" /\ buf = <<>> /\ i = Len(sc.rows) /\ pc' = "done"
    /\ Emit((IF sc.ident = <<>> THEN <<>>
             ELSE IF sc.d = "sqlserver" THEN <<Exe(Op("identity"), FALSE)>>
             ELSE <<[e |-> "exec", op |-> [o |-> "setval", t |-> "t", from |-> "t", col |-> "id", max |-> "id"], fail |-> FALSE, inj |-> FALSE, nargs |-> 2]>>)
            \o <<End("", FALSE)>>)
    /\ UNCHANGED <<sc, i, n, buf, w>>
Fail ==
    /\ pc \in {"failed", "source"} /\ pc' = "done"
    /\ Emit(<<End("error", pc = "source")>>)
    /\ UNCHANGED <<sc, i, n, buf, w>>

Next == Begin \/ Take \/ Flush \/ Send("update", Update, "insert") \/ Send("insert", Insert, "take") \/ Finish \/ Fail

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NothingBroken == bad = {}
(* The oracle itself: upserting is idempotent, so sending a stream twice one  *)
(* row at a time leaves the table of sending it once.                         *)
Idempotent == pc = "begin" /\ sc.key # <<>> =>
    LET T == OneByOne(S, S.start, sc.rows) IN SameTable(OneByOne(S, T, sc.rows), T)
(* Nothing is left unsent when the insert reports success. *)
AllSent == pc = "done" /\ S.stop = "" => S.vs = sc.rows
Ends == <>(pc = "done")
=============================================================================
