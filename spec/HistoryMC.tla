----------------------------- MODULE HistoryMC -----------------------------
(* Every implementation allowed by the clauses of History, on small           *)
(* directories, against every environment (failing scripts, lock timeouts,    *)
(* database failures, crashes, edits, touch, rm).                             *)
(*                                                                            *)
(* The implementation is adversarial: in a run it may begin, commit or roll   *)
(* back at any time, execute any file, write any history row in or outside a  *)
(* transaction and return success or failure at any time - as long as no      *)
(* clause is broken.  The invariants are the user-level guarantees.           *)
EXTENDS History

CONSTANTS D,          \* dialect
          Dir,        \* the directory (files with their initial content)
          MaxCmds,    \* commands per behaviour
          MaxEdits,
          MaxFaults

VARIABLES S, dir, tx, eff, touched, cmds, edits, faults, lastok
vars == <<S, dir, tx, eff, touched, cmds, edits, faults, lastok>>

R == S.run
NoTxBuf == [log |-> <<>>, hist |-> <<>>]
AllNames == Range(Names(Dir))

Row(f, ok, sum) == [f |-> f, ok |-> ok, sum |-> sum, st |-> TRUE, ns |-> "0", at |-> ""]
RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o SeqOf(s \ {x})
HistSeq(h) == SeqOf({h[f] : f \in DOMAIN h})
Merge(h, w) == [f \in DOMAIN h \cup DOMAIN w |-> IF f \in DOMAIN w THEN w[f] ELSE h[f]]

(* Take the events in order; none may break a clause. *)
RECURSIVE Ok(_, _)
Ok(s, evs) == IF evs = <<>> THEN TRUE ELSE IF Broken(s, Head(evs)) = {} THEN Ok(Step(s, Head(evs)), Tail(evs)) ELSE FALSE
RECURSIVE After(_, _)
After(s, evs) == IF evs = <<>> THEN s ELSE After(Step(s, Head(evs)), Tail(evs))
Take(evs) == Ok(S, evs) /\ S' = After(S, evs)

Dur(log, h) == [e |-> "dur", log |-> log, hist |-> HistSeq(h), has |-> TRUE]

(* How often the whole of a script's current content took effect since its    *)
(* record was last changed by hand.                                           *)
Whole(log, f) == LET file == File(dir, f) IN
    IF \A j \in 1..file.n : j # file.fail => \E i \in 1..Len(log) : log[i] = <<f, file.ver, j>> THEN 1 ELSE 0
AddEff(log) == [f \in AllNames |-> eff[f] + IF log = <<>> THEN 0 ELSE IF \E i \in 1..Len(log) : log[i][1] = f THEN Whole(log, f) ELSE 0]

MCInit ==
    /\ S = InitState(D, "")
    /\ dir = Dir
    /\ tx = NoTxBuf
    /\ eff = [f \in AllNames |-> 0]
    /\ touched = {}
    /\ cmds = 0 /\ edits = 0 /\ faults = 0
    /\ lastok = FALSE

Cmd(op, args) ==
    /\ R.op = "idle" /\ cmds < MaxCmds
    /\ Take(<<[e |-> "cmd", op |-> op, args |-> args, flags |-> <<>>, dir |-> dir, max |-> 2, base |-> 1, maxd |-> 2, lockms |-> 1000]>>)
    /\ cmds' = cmds + 1
    /\ lastok' = FALSE
    /\ UNCHANGED <<dir, tx, eff, touched, edits, faults>>

StartMigrate == Cmd("migrate", <<>>) \/ \E f \in AllNames : Cmd("migrate", <<f>>)

(* By hand: the record is written or removed, with no script executed. *)
ByHand ==
    \E op \in {"touch", "rm"}, f \in {g \in AllNames : IsMigration(g)} :
        LET R0 == Start(S, [e |-> "cmd", op |-> op, args |-> <<f>>, flags |-> <<>>, dir |-> dir, max |-> 2, base |-> 1, maxd |-> 2, lockms |-> 1000])
            want == Edited([S EXCEPT !.run = R0])
            h == [g \in DOMAIN want |-> IF g \in DOMAIN S.hist /\ g # f THEN S.hist[g] ELSE Row(g, want[g].ok, want[g].sum)]
        IN  /\ R.op = "idle" /\ cmds < MaxCmds
            /\ Take(<<[e |-> "cmd", op |-> op, args |-> <<f>>, flags |-> <<>>, dir |-> dir, max |-> 2, base |-> 1, maxd |-> 2, lockms |-> 1000],
                      Dur(<<>>, h),
                      [e |-> "end", err |-> FALSE, panic |-> "", named |-> <<>>, rows |-> IF op = "touch" \/ f \in DOMAIN S.hist THEN 1 ELSE 0, ls |-> <<>>, sess |-> <<>>]>>)
            /\ cmds' = cmds + 1
            /\ eff' = [eff EXCEPT ![f] = 0]
            /\ touched' = IF op = "touch" THEN touched \cup {f} ELSE touched \ {f}
            /\ lastok' = FALSE
            /\ UNCHANGED <<dir, tx, edits, faults>>

Edit ==
    \E i \in 1..Len(dir) :
        /\ R.op = "idle" /\ edits < MaxEdits
        /\ dir' = [dir EXCEPT ![i].ver = @ + 1, ![i].fail = 0]
        /\ edits' = edits + 1
        /\ eff' = IF Repeatable(dir[i].f) THEN [eff EXCEPT ![dir[i].f] = 0] ELSE eff
        /\ lastok' = FALSE
        /\ UNCHANGED <<S, tx, touched, cmds, faults>>

Running == R.op = "migrate" /\ ~R.crash

Begin == /\ Running /\ ~R.intx
         /\ Take(<<[e |-> "begin", res |-> "ok", inj |-> FALSE, after |-> FALSE]>>)
         /\ tx' = NoTxBuf
         /\ UNCHANGED <<dir, eff, touched, cmds, edits, faults, lastok>>

ExecEv(f, res) == [e |-> "exec", f |-> f, ver |-> File(dir, f).ver, res |-> res, intx |-> R.intx, gap |-> 1, lt |-> LockValue(D, 1000), after |-> FALSE, inj |-> FALSE]

(* Any file of the directory, at any time. *)
Exec ==
    \E f \in AllNames : LET file == File(dir, f) IN
        /\ Running
        /\ \/ /\ file.fail = 0
              /\ Take(IF R.intx THEN <<ExecEv(f, "ok")>> ELSE <<ExecEv(f, "ok"), Dur(Effects(file), S.hist)>>)
              /\ tx' = IF R.intx THEN [tx EXCEPT !.log = @ \o Effects(file)] ELSE tx
              /\ eff' = IF R.intx THEN eff ELSE AddEff(Effects(file))
              /\ faults' = faults
           \/ /\ file.fail # 0
              /\ Take(IF R.intx THEN <<ExecEv(f, "err")>> ELSE <<ExecEv(f, "err"), Dur(PartialEffects(file), S.hist)>>)
              /\ UNCHANGED <<tx, eff, faults>>
           \/ /\ faults < MaxFaults
              /\ faults' = faults + 1
              /\ \E res \in {"lock", "crash"} : Take(<<ExecEv(f, res)>>)
              /\ UNCHANGED <<tx, eff>>
        /\ UNCHANGED <<dir, touched, cmds, edits, lastok>>

(* Any history row of any file, at any time. *)
Record ==
    \E f \in AllNames, ok \in BOOLEAN, sum \in {"", "v0"} \cup {Sum(File(dir, g)) : g \in {h \in AllNames : Repeatable(h)}} :
        /\ Running
        /\ Repeatable(f) \/ sum = ""
        /\ LET w == [g \in {f} |-> Row(f, ok, sum)] IN
           IF R.intx
           THEN /\ tx' = [tx EXCEPT !.hist = Merge(@, w)]
                /\ tx' # tx
                /\ UNCHANGED <<S, touched>>
           ELSE /\ Merge(S.hist, w) # S.hist
                /\ Take(<<Dur(<<>>, Merge(S.hist, w))>>)
                /\ touched' = touched \ {f}
                /\ tx' = tx
        /\ UNCHANGED <<dir, eff, cmds, edits, faults, lastok>>

Commit ==
    /\ Running /\ R.intx
    /\ LET h == Merge(S.hist, tx.hist) IN
       \/ /\ Take(<<[e |-> "commit", res |-> "ok", inj |-> FALSE, after |-> FALSE], Dur(tx.log, h)>>)
          /\ eff' = AddEff(tx.log)
          /\ touched' = touched \ Changed(S.hist, h)
          /\ faults' = faults
       \/ /\ faults < MaxFaults
          /\ faults' = faults + 1
          /\ \/ /\ Take(<<[e |-> "commit", res |-> "crash", inj |-> TRUE, after |-> TRUE], Dur(tx.log, h)>>)
                /\ eff' = AddEff(tx.log)
                /\ touched' = touched \ Changed(S.hist, h)
             \/ /\ \E res \in {"crash", "err"} : Take(<<[e |-> "commit", res |-> res, inj |-> TRUE, after |-> FALSE]>>)
                /\ UNCHANGED <<eff, touched>>
    /\ tx' = NoTxBuf
    /\ UNCHANGED <<dir, cmds, edits, lastok>>

Rollback ==
    /\ Running /\ R.intx
    /\ Take(<<[e |-> "rollback", res |-> "ok", inj |-> FALSE, after |-> FALSE]>>)
    /\ tx' = NoTxBuf
    /\ UNCHANGED <<dir, eff, touched, cmds, edits, faults, lastok>>

End ==
    \E err \in BOOLEAN :
        /\ R.op = "migrate" /\ (~R.intx \/ R.crash)
        /\ Take(<<[e |-> "end", err |-> err, panic |-> "", named |-> Names(dir), rows |-> -1, ls |-> <<>>, sess |-> <<>>]>>)
        /\ lastok' = (~err /\ R.args = <<>>)
        /\ tx' = NoTxBuf
        /\ UNCHANGED <<dir, eff, touched, cmds, edits, faults>>

MCNext == StartMigrate \/ ByHand \/ Edit \/ Begin \/ Exec \/ Record \/ Commit \/ Rollback \/ End

-----------------------------------------------------------------------------
Recorded(f) == f \in DOMAIN S.hist /\ S.hist[f].ok

(* A transactional script takes effect at most once while its record stands,  *)
(* at whatever point a run stops, and exactly when it is recorded.            *)
ExactlyOnce ==
    \A f \in AllNames : IsMigration(f) /\ InTx(D, f) /\ ~Repeatable(f) =>
        /\ eff[f] <= 1
        /\ f \notin touched => (eff[f] = 1 <=> Recorded(f))
(* Success is never recorded for effects that are not durable. *)
NoFalseSuccess ==
    \A f \in AllNames : IsMigration(f) /\ Recorded(f) /\ f \notin touched =>
        \/ eff[f] >= 1
        \/ Repeatable(f) /\ S.hist[f].sum # Sum(File(dir, f))
(* After a successful run of everything nothing is left to do. *)
Converged == lastok => Pending(dir, S.hist, <<>>) = <<>>
(* What ls calls pending or failed is what migrate would execute. *)
Predicts ==
    {x[2] : x \in Range(Listing(dir, S.hist, S.hseq, <<>>))} = Range(Pending(dir, S.hist, <<>>))

(* A run can always end: the clauses never leave an implementation stuck. *)
CanEnd == R.op = "migrate" /\ ~R.intx => ENABLED End \/ ENABLED Begin \/ ENABLED Exec \/ ENABLED Record
=============================================================================
