------------------------------ MODULE History ------------------------------
(* The migration history machine: migrate, touch, rm, mv and ls over a        *)
(* directory of scripts and a database.                                       *)
(*                                                                            *)
(* The machine consumes events.  Broken(S, ev) is the set of <<property,      *)
(* clause>> pairs that event ev breaks in state S, Step(S, ev) is the state   *)
(* after it.  A behaviour of the specification is a sequence of events that   *)
(* break nothing; HistoryMC explores those behaviours exhaustively for small  *)
(* directories and HistoryTrace replays recorded executions of the real code. *)
(*                                                                            *)
(* Events                                                                     *)
(*   cmd   a command starts: op, args, flags, dir (the scripts, in directory  *)
(*         order, each [f, ver, n, fail, crlf]) and its settings              *)
(*   begin, commit, rollback     transaction control reaching the database    *)
(*   exec  the body of script f reaches the database                          *)
(*   fault something else that reached the database failed                    *)
(*   dur   the durable state changed: log rows added, history rows now        *)
(*   end   the command returned                                               *)
EXTENDS Strings, Integers, FiniteSets, TLC

CONSTANT Slack     \* scheduling slack allowed on top of the maximum delay (us)

-----------------------------------------------------------------------------
(* Scripts and files                                                          *)

Repeatable(f) == HasPrefix(f, "repeatable/")
IsUndo(f) == HasSuffix(f, ".undo.sql")
IsMigration(f) ==
    /\ HasSuffix(f, ".sql")
    /\ ~IsUndo(f)
    /\ ~\E b \in {"schema.sql", "indexes.sql", "constraints.sql"} : f = b \/ HasSuffix(f, "/" \o b)
UndoName(f) == DropSuffix(DropSuffix(f, ".sql"), ".txoff") \o ".undo.sql"

OwnTx(f) == HasSuffix(f, ".tx.sql")
NoTx(f) == HasSuffix(f, ".txoff.sql")
InTx(d, f) == OwnTx(f) \/ (~NoTx(f) /\ d # "mysql")
Alone(d, f) == d = "mysql" \/ OwnTx(f) \/ NoTx(f)

Names(dir) == [i \in 1..Len(dir) |-> dir[i].f]
InDir(dir, f) == \E i \in 1..Len(dir) : dir[i].f = f
File(dir, f) == dir[CHOOSE i \in 1..Len(dir) : dir[i].f = f]
Sum(file) == "v" \o ToString(file.ver)

(* Effects of a script: one log row per statement. *)
Effects(file) == [j \in 1..file.n |-> <<file.f, file.ver, j>>]
(* Statements before the failing one, which stay when there is no transaction. *)
PartialEffects(file) == [j \in 1..(file.fail - 1) |-> <<file.f, file.ver, j>>]

Candidates(dir, args) ==
    IF args = <<>> THEN SelectSeq(Names(dir), LAMBDA f : ~Contains(f, "/") \/ Repeatable(f))
    ELSE Dedup(args)
(* Which scripts a command means, in execution order. *)
Selected(dir, args) ==
    LET c == SelectSeq(Candidates(dir, args), IsMigration)
    IN  SelectSeq(c, LAMBDA f : ~Repeatable(f)) \o SelectSeq(c, Repeatable)

(* Recorded as done, so that migrate must leave it alone. *)
Settled(dir, hist, f) ==
    /\ f \in DOMAIN hist
    /\ hist[f].ok
    /\ Repeatable(f) => hist[f].sum = Sum(File(dir, f))
Pending(dir, hist, args) == SelectSeq(Selected(dir, args), LAMBDA f : ~Settled(dir, hist, f))

(* Consecutive ordinary scripts share a transaction. *)
RECURSIVE GroupsRec(_, _, _)
GroupsRec(d, s, cur) ==
    IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
    ELSE IF cur = <<>> THEN GroupsRec(d, Tail(s), <<Head(s)>>)
    ELSE IF Alone(d, Head(s)) \/ Alone(d, cur[1])
         THEN <<cur>> \o GroupsRec(d, Tail(s), <<Head(s)>>)
         ELSE GroupsRec(d, Tail(s), Append(cur, Head(s)))
Groups(d, s) == GroupsRec(d, s, <<>>)

RECURSIVE AllEffects(_, _)
AllEffects(dir, g) == IF g = <<>> THEN <<>> ELSE Effects(File(dir, Head(g))) \o AllEffects(dir, Tail(g))

(* A script that can be executed again after a lock timeout: it left nothing. *)
CanTimeOut(d) == d # "sqlite"
Retryable(d, dir, f) == InTx(d, f) \/ File(dir, f).n = 1

HistFun(rows) == [f \in {rows[i].f : i \in 1..Len(rows)} |-> rows[CHOOSE i \in 1..Len(rows) : rows[i].f = f]]
(* A history entry without its clock readings. *)
Core(h) == [f |-> h.f, ok |-> h.ok, sum |-> h.sum, st |-> h.st]
(* Did the entry of f change?  Clock readings change on every attempt. *)
Changed(h1, h2) == {f \in DOMAIN h1 \cup DOMAIN h2 :
    \/ f \notin DOMAIN h1 \/ f \notin DOMAIN h2
    \/ h1[f] # h2[f]}

Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
GroupOf(plan, f) == IF \E i \in 1..Len(plan) : f \in Range(plan[i])
                    THEN CHOOSE i \in 1..Len(plan) : f \in Range(plan[i]) ELSE 0

-----------------------------------------------------------------------------
(* State                                                                      *)

NoRun == [op |-> "idle", args |-> <<>>, flags |-> <<>>, dir |-> <<>>, sel |-> <<>>, pend |-> <<>>, plan |-> <<>>,
          badargs |-> FALSE, hist0 |-> <<>>, has0 |-> FALSE, hseq0 |-> <<>>,
          done |-> <<>>,       \* scripts whose group is finished (durably applied)
          cur |-> <<>>,        \* scripts executed in the current attempt of the current group
          intx |-> FALSE, committed |-> FALSE,
          applied |-> {},      \* scripts with durable effects
          fail |-> "",         \* the script that failed
          lock |-> "",         \* the script that timed out and may be attempted again
          attempt |-> 1,
          infra |-> FALSE,     \* something else failed first
          faulty |-> FALSE,    \* something else failed
          silent |-> FALSE,    \* a failure that must surface as an error
          after |-> FALSE,     \* a call took effect although it reported a failure
          crash |-> FALSE,
          undone |-> <<>>,
          last |-> "",         \* the last script executed
          max |-> 0, base |-> 0, maxd |-> 0, lockms |-> 0]

InitState(d, sess) == [d |-> d, sess |-> sess, hist |-> <<>>, hseq |-> <<>>, has |-> FALSE, run |-> NoRun]

Start(S, ev) ==
    LET sel == Selected(ev.dir, ev.args)
        bad == ev.op \in {"migrate", "touch"} /\ \E f \in Range(ev.args) : ~InDir(ev.dir, f)
        pend == IF bad \/ ev.op # "migrate" THEN <<>> ELSE Pending(ev.dir, S.hist, ev.args)
    IN  [NoRun EXCEPT !.op = ev.op, !.args = ev.args, !.flags = ev.flags, !.dir = ev.dir, !.sel = IF bad THEN <<>> ELSE sel,
                      !.pend = pend, !.plan = Groups(S.d, pend), !.badargs = bad,
                      !.hist0 = S.hist, !.has0 = S.has, !.hseq0 = S.hseq,
                      !.max = ev.max, !.base = ev.base, !.maxd = ev.maxd, !.lockms = ev.lockms]

-----------------------------------------------------------------------------
(* What the lock timeout must be while scripts run.                           *)
LockValue(d, ms) ==
    CASE d = "sqlite" -> ""
      [] d = "mysql" -> ToString((ms + 999) \div 1000)
      [] d = "sqlserver" -> ToString(ms)
      [] d = "postgres" -> IF ms = 0 THEN "0"
                           ELSE IF ms % 60000 = 0 THEN ToString(ms \div 60000) \o "min"
                           ELSE IF ms % 1000 = 0 THEN ToString(ms \div 1000) \o "s"
                           ELSE ToString(ms) \o "ms"
      [] OTHER -> ""

-----------------------------------------------------------------------------
(* exec: the body of a script reaches the database                            *)

UndoAllowed(S, f) ==
    LET R == S.run
        (* the script, or recording it, failed *)
        g == IF R.fail # "" THEN R.fail ELSE IF R.infra THEN R.last ELSE ""
    IN  /\ g # ""
        /\ f = UndoName(g)
        /\ ~Retryable(S.d, R.dir, g)
        /\ f \notin Range(R.undone)

BrokenExec(S, ev) ==
    LET R == S.run
        f == ev.f
        g == GroupOf(R.plan, f)
        grp == R.plan[g]
    IN  IF R.op = "touch" THEN {<<"C07", "touch executed a script">>}
        ELSE IF R.op # "migrate" THEN {<<"C06", "a script was executed outside migrate">>}
        ELSE IF IsUndo(f) /\ f \notin Range(R.pend)
        THEN IF UndoAllowed(S, f) THEN {} ELSE {<<"C03", "undo script executed when it must not be">>}
        ELSE
        (IF f \in Range(R.pend) THEN {}
         ELSE IF Repeatable(f) /\ f \in Range(R.sel) THEN {<<"C04", "unchanged repeatable script executed">>}
         ELSE {<<"C01", "script executed that must not be">>})
        \cup
        (IF R.fail # "" THEN {<<"C03", "script executed after a failure">>} ELSE {})
        \cup
        (IF R.infra THEN {<<"C02", "script executed after a database failure">>} ELSE {})
        \cup
        (IF f \notin Range(R.pend) THEN {}
         ELSE
         (IF ev.intx = InTx(S.d, f) THEN {} ELSE {<<"C02", "transaction mode of the script">>})
         \cup
         (IF R.lock # "" THEN
             (* A lock timeout: the group starts over. *)
             (IF f = R.plan[GroupOf(R.plan, R.lock)][1] THEN {} ELSE {<<"C05", "retry does not start from the beginning of the group">>})
             \cup (IF R.attempt < R.max THEN {} ELSE {<<"C05", "more attempts than allowed">>})
             \cup (IF Retryable(S.d, R.dir, R.lock) THEN {} ELSE {<<"C05", "retried a script that is not retryable">>})
             \cup (IF ev.gap >= R.base THEN {} ELSE {<<"C05", "retried before the base delay">>})
             \cup (IF ev.gap <= R.maxd + Slack \/ ev.gap <= R.base + Slack THEN {} ELSE {<<"C05", "waited longer than the maximum delay">>})
          ELSE
             (IF f \in Range(R.done) \cup Range(R.cur) THEN {<<"C01", "script executed twice in one run">>} ELSE {})
             \cup
             (IF R.last # "" /\ R.last \in Range(R.pend) /\ Pos(R.pend, f) < Pos(R.pend, R.last) THEN {<<"C01", "scripts executed out of order">>} ELSE {})
             \cup
             (* Everything before it is finished or part of the same group. *)
             {IF Repeatable(h) THEN <<"C04", "changed repeatable script skipped">> ELSE <<"C01", "pending script skipped">> :
                 h \in {R.pend[i] : i \in 1..(Pos(R.pend, f) - 1)} \ (Range(R.done) \cup Range(R.cur))})
         \cup
         (IF ev.lt = LockValue(S.d, R.lockms) THEN {} ELSE {<<"C05", "lock timeout not in force">>})
         \cup
         (IF ev.ver = File(R.dir, f).ver THEN {} ELSE {<<"C01", "script content is not the file's">>}))

StepExec(S, ev) ==
    LET R == S.run
        f == ev.f
        known == f \in Range(R.pend)
        restart == R.lock # ""
        cur0 == IF restart \/ ~ev.intx THEN <<>> ELSE R.cur
        att == IF restart THEN R.attempt + 1 ELSE IF cur0 = <<>> THEN 1 ELSE R.attempt
        R1 == [R EXCEPT !.lock = "", !.attempt = att, !.last = f, !.committed = FALSE]
    IN  IF R.op # "migrate" THEN S
        ELSE IF IsUndo(f) /\ ~known THEN [S EXCEPT !.run.undone = Append(@, f), !.run.crash = @ \/ ev.res = "crash"]
        ELSE IF ev.res = "crash" THEN [S EXCEPT !.run = [R1 EXCEPT !.crash = TRUE, !.applied = IF ev.after /\ ~ev.intx THEN @ \cup {f} ELSE @]]
        ELSE IF ev.res = "ok" THEN
            [S EXCEPT !.run = IF ev.intx THEN [R1 EXCEPT !.cur = Append(cur0, f)]
                              ELSE [R1 EXCEPT !.cur = <<>>, !.done = Append(@, f), !.applied = @ \cup {f}]]
        ELSE IF ev.res = "lock" /\ CanTimeOut(S.d) /\ known /\ Retryable(S.d, R.dir, f)
             THEN [S EXCEPT !.run = [R1 EXCEPT !.lock = f, !.cur = Append(cur0, f)]]
        ELSE [S EXCEPT !.run = [R1 EXCEPT !.fail = f, !.cur = IF ev.intx THEN Append(cur0, f) ELSE <<f>>,
                                          !.applied = IF ev.after /\ ~ev.intx THEN @ \cup {f} ELSE @]]

-----------------------------------------------------------------------------
(* Transaction control and other failures                                     *)

BrokenTx(S, ev) ==
    LET R == S.run
    IN  IF ev.e = "begin" /\ R.intx THEN {<<"C02", "transactions overlap">>} ELSE
        IF ev.e = "commit" /\ ev.res = "ok" /\ R.op = "migrate" THEN
            (IF R.fail = "" /\ R.lock = "" THEN {} ELSE {<<"C02", "commit after a failure">>})
            \cup
            (IF R.cur # <<>> /\ \E i \in 1..Len(R.plan) : R.plan[i] = R.cur THEN {}
             ELSE {<<"C02", "the transaction does not hold exactly one group of scripts">>})
        ELSE {}

StepTx(S, ev) ==
    LET R == S.run
        durable == ev.e = "commit" /\ (ev.res = "ok" \/ ev.after)
        R1 == IF ev.res = "crash" THEN [R EXCEPT !.crash = TRUE]
              ELSE IF ev.res = "lock" /\ CanTimeOut(S.d) /\ R.op = "migrate" /\ ev.e = "commit"
                   THEN [R EXCEPT !.lock = IF R.cur = <<>> THEN "" ELSE R.cur[Len(R.cur)]]
              ELSE IF ev.res # "ok" /\ ev.e # "rollback" THEN [R EXCEPT !.infra = TRUE, !.faulty = TRUE, !.silent = TRUE]
              ELSE R
        R2 == [R1 EXCEPT !.intx = (ev.e = "begin" /\ ev.res = "ok"), !.committed = durable]
    IN  [S EXCEPT !.run =
            IF ev.e = "begin" THEN [R2 EXCEPT !.cur = IF R.lock # "" THEN @ ELSE <<>>]
            ELSE IF durable THEN [R2 EXCEPT !.done = @ \o R.cur, !.applied = @ \cup Range(R.cur)]
            ELSE R2]

StepFault(S, ev) ==
    LET R == [S.run EXCEPT !.after = @ \/ ev.after]
    IN  [S EXCEPT !.run =
            IF ev.res = "crash" THEN [R EXCEPT !.crash = TRUE, !.intx = FALSE]
            ELSE IF ev.res = "lock" /\ CanTimeOut(S.d) /\ R.op = "migrate" /\ ev.intx /\ R.cur # <<>> THEN [R EXCEPT !.lock = R.cur[Len(R.cur)]]
            ELSE [R EXCEPT !.infra = (@ \/ R.fail = ""), !.faulty = TRUE,
                           !.silent = @ \/ ((ev.intx \/ ev.kind \in {"exec", "prepare"}) /\ R.fail = "")]]

-----------------------------------------------------------------------------
(* dur: the durable state changed                                             *)

Touched(S) ==
    LET R == S.run
    IN  [f \in DOMAIN R.hist0 \cup Range(R.sel) |->
            IF f \in Range(R.sel) THEN [f |-> f, ok |-> TRUE, st |-> TRUE,
                                        sum |-> IF Repeatable(f) THEN Sum(File(R.dir, f)) ELSE ""]
            ELSE Core(R.hist0[f])]
Removed(S) == LET R == S.run IN [f \in DOMAIN R.hist0 \ Range(R.args) |-> Core(R.hist0[f])]
(* A rename; the checksum stays what it was (the content of the old name). *)
MvBlocked(S) == LET R == S.run IN /\ R.args[1] \in DOMAIN R.hist0 /\ R.args[2] \in DOMAIN R.hist0 /\ R.args[1] # R.args[2]
Moved(S) ==
    LET R == S.run
        a == R.args[1]
        b == R.args[2]
    IN  IF a \notin DOMAIN R.hist0 \/ MvBlocked(S) THEN [f \in DOMAIN R.hist0 |-> Core(R.hist0[f])]
        ELSE [f \in (DOMAIN R.hist0 \ {a}) \cup {b} |-> IF f = b THEN [Core(R.hist0[a]) EXCEPT !.f = b] ELSE Core(R.hist0[f])]
Cores(h) == [f \in DOMAIN h |-> Core(h[f])]
(* Entries are compared without the checksum of versioned scripts (unused) and *)
(* a moved entry's checksum is compared by the recorder, which names it by the *)
(* file that has that content ("v1@old").                                      *)
SameSum(x, y, f, S) ==
    \/ x = y
    \/ ~Repeatable(f)
    \/ S.run.op = "mv" /\ f = S.run.args[2]
SameHist(h, want, S) ==
    /\ DOMAIN h = DOMAIN want
    /\ \A f \in DOMAIN h : h[f].ok = want[f].ok /\ h[f].st = want[f].st /\ SameSum(h[f].sum, want[f].sum, f, S)
Edited(S) == CASE S.run.op = "touch" -> Touched(S)
               [] S.run.op = "rm" -> Removed(S)
               [] S.run.op = "mv" -> Moved(S)

BrokenDur(S, ev) ==
    LET R == S.run
        nh == HistFun(ev.hist)
        ch == Changed(S.hist, nh)
    IN  IF R.op = "idle" THEN {}
        ELSE IF R.op = "ls" THEN
            (IF ev.log = <<>> /\ ch = {} /\ ev.has = S.has THEN {} ELSE {<<"C06", "listing changed the database">>})
        ELSE IF R.op \in {"touch", "rm", "mv"} THEN
            (IF ev.log = <<>> THEN {} ELSE {<<"C07", "another table changed">>})
            \cup
            (IF nh = R.hist0 \/ SameHist(nh, Edited(S), S) THEN {}
             ELSE {<<"C07", "history is neither the old nor the requested one">>})
            \cup
            (IF \A f \in DOMAIN R.hist0 : f \in DOMAIN nh /\ f \notin Range(R.sel) => nh[f] = R.hist0[f] THEN {}
             ELSE {<<"C07", "another entry changed">>})
        ELSE
            (IF R.intx /\ ~R.crash /\ (ev.log # <<>> \/ ch # {}) THEN {<<"C02", "durable change while the transaction is open">>} ELSE {})
            \cup
            (IF R.committed
             THEN IF /\ ev.log = AllEffects(R.dir, R.cur)
                     /\ \A f \in Range(R.cur) : f \in DOMAIN nh /\ nh[f].ok
                  THEN {} ELSE {<<"C02", "effects and success record not committed together">>}
             ELSE IF ev.log = <<>> THEN {}
             ELSE IF ev.log[1][1] \in Range(R.pend) /\ InTx(S.d, ev.log[1][1])
                  THEN {<<"C02", "effects of a transactional script outside its transaction">>}
                  ELSE {})
            \cup
            (IF \A f \in ch \cap DOMAIN nh : nh[f].ok => f \in R.applied THEN {}
             ELSE {<<"C02", "success recorded before the effects are durable">>})
            \cup
            (IF \A f \in ch : f \in Range(R.done) /\ InTx(S.d, f) => f \in DOMAIN nh /\ nh[f].ok THEN {}
             ELSE {<<"C02", "a committed script lost its success record">>})
            \cup
            (IF \A f \in ch : f \in Range(R.pend) THEN {}
             ELSE {<<"C03", "the record of a script that was not executed changed">>})

StepDur(S, ev) ==
    [S EXCEPT !.hist = HistFun(ev.hist), !.hseq = [i \in 1..Len(ev.hist) |-> ev.hist[i].f], !.has = ev.has,
              !.run.committed = FALSE,
              !.run.cur = IF S.run.committed THEN <<>> ELSE @]

-----------------------------------------------------------------------------
(* end: the command returned                                                  *)

(* What ls must print. *)
Status(dir, hist, f) ==
    IF f \notin DOMAIN hist \/ ~hist[f].st THEN "pending"
    ELSE IF ~hist[f].ok THEN "failed"
    ELSE IF Settled(dir, hist, f) THEN "applied" ELSE "pending"
Wanted(flags) ==
    LET fs == Range(flags)
    IN  IF "all" \in fs THEN {"pending", "applied", "failed", "missing"}
        ELSE IF fs \cap {"pending", "applied", "failed", "missing"} = {} THEN {"pending", "failed"}
        ELSE fs
Listing(dir, hist, hseq, flags) ==
    LET sel == Selected(dir, <<>>)
        want == Wanted(flags)
        here == [i \in 1..Len(sel) |-> <<Status(dir, hist, sel[i]), sel[i]>>]
        gone == SelectSeq(hseq, LAMBDA f : f \notin Range(sel))
        miss == SelectSeq(gone, LAMBDA f : ~Repeatable(f)) \o SelectSeq(gone, Repeatable)
    IN  SelectSeq(here, LAMBDA x : x[1] \in want)
        \o (IF "missing" \in want THEN [i \in 1..Len(miss) |-> <<"missing", miss[i]>>] ELSE <<>>)

FailedGroup(S) == LET R == S.run IN IF R.cur = <<>> THEN <<R.fail>> ELSE R.cur

BrokenEnd(S, ev) ==
    LET R == S.run
        cause == R.fail # "" \/ R.infra \/ R.lock # "" \/ R.crash \/ R.badargs
        quiet == ~R.faulty /\ ~R.crash
        executed == Range(R.done)
    IN
    CASE R.op = "ls" ->
            (IF ev.err THEN (IF ~quiet THEN {} ELSE {<<"C06", "listing failed">>})
             ELSE IF ev.ls = Listing(R.dir, S.hist, S.hseq, R.flags) THEN {}
             ELSE {<<"C06", "listing does not match the history and the directory">>})
      [] R.op \in {"touch", "rm", "mv"} ->
            (IF ev.err THEN {}
             ELSE IF R.badargs THEN {<<"C07", "unknown script accepted">>}
             ELSE IF R.op = "mv" /\ MvBlocked(S) THEN {<<"C07", "impossible rename not reported">>}
             ELSE IF SameHist(S.hist, Edited(S), S) THEN {} ELSE {<<"C07", "success reported but the history is not the requested one">>})
            \cup
            (IF R.op = "touch" /\ ~ev.err /\ \E f \in Range(R.sel) : Repeatable(f) /\ f \in DOMAIN S.hist /\ S.hist[f].sum # Sum(File(R.dir, f))
             THEN {<<"C04", "checksum recorded is not the content's">>} ELSE {})
            \cup
            (IF ev.err /\ quiet /\ ~R.badargs /\ ~(R.op = "mv" /\ MvBlocked(S)) THEN {<<"C07", "failed for no reason">>} ELSE {})
            \cup
            (IF ev.err /\ ~R.after /\ ~R.crash /\ S.hist # R.hist0 THEN {<<"C07", "failed but changed the history">>} ELSE {})
            \cup
            (IF ev.err \/ ~quiet THEN {}
             ELSE LET n == CASE R.op = "touch" -> Len(R.sel)
                             [] R.op = "rm" -> IF R.args = <<>> THEN -1 ELSE Cardinality(DOMAIN R.hist0 \cap Range(R.args))
                             [] R.op = "mv" -> IF R.args[1] \in DOMAIN R.hist0 THEN 1 ELSE 0
                  IN  IF ev.rows = n THEN {} ELSE {<<"C07", "wrong number of entries reported">>})
      [] R.op = "migrate" ->
            (IF ev.err = TRUE /\ ~cause THEN {<<"C01", "failed for no reason">>} ELSE {})
            \cup
            (IF ~ev.err /\ R.badargs THEN {<<"C01", "unknown script accepted">>} ELSE {})
            \cup
            (IF ~ev.err /\ R.silent THEN {<<"C02", "database failure not reported">>} ELSE {})
            \cup
            (IF ev.err THEN {}
             ELSE {IF Repeatable(h) THEN <<"C04", "changed repeatable script not executed">> ELSE <<"C01", "pending script not executed">> :
                     h \in Range(R.pend) \ executed}
                  \cup
                  (IF \A f \in executed : f \in DOMAIN S.hist /\ S.hist[f].ok THEN {} ELSE {<<"C02", "executed but not recorded as successful">>}))
            \cup
            {<<"C04", "checksum recorded is not the content's">> :
                f \in {h \in executed : Repeatable(h) /\ h \in DOMAIN S.hist /\ S.hist[h].ok /\ S.hist[h].sum # Sum(File(R.dir, h))
                                             /\ (~ev.err \/ h \notin DOMAIN R.hist0 \/ S.hist[h] # R.hist0[h])}}
            \cup
            {<<"C04", "record of an unchanged repeatable script changed">> :
                f \in {h \in Range(R.sel) \ Range(R.pend) : Repeatable(h) /\ (h \notin DOMAIN S.hist \/ S.hist[h] # R.hist0[h])}}
            \cup
            (* failure *)
            (IF R.fail = "" THEN {}
             ELSE (IF ev.err THEN {} ELSE {<<"C03", "failure not reported">>})
                  \cup (IF ev.err /\ R.fail \notin Range(ev.named) THEN {<<"C03", "error does not name the script">>} ELSE {})
                  \cup (IF ~quiet THEN {}
                        ELSE (IF \A f \in Range(FailedGroup(S)) : f \in DOMAIN S.hist /\ ~S.hist[f].ok THEN {}
                              ELSE {<<"C03", "failed scripts not recorded as unsuccessful">>})
                             \cup
                             (IF /\ ~Retryable(S.d, R.dir, R.fail)
                                 /\ InDir(R.dir, UndoName(R.fail))
                                 /\ UndoName(R.fail) \notin Range(R.undone)
                              THEN {<<"C03", "undo script not executed">>} ELSE {}))
                  \cup (IF \A f \in executed : f \in DOMAIN S.hist /\ (quiet => S.hist[f].ok) THEN {}
                        ELSE {<<"C03", "a script committed before the failure lost its record">>}))
            \cup
            (* lock timeouts *)
            (IF R.lock = "" \/ ~quiet THEN {}
             ELSE (IF R.attempt < R.max THEN {<<"C05", "gave up before the last attempt">>} ELSE {})
                  \cup (IF ev.err THEN {} ELSE {<<"C05", "exhausted attempts not reported">>})
                  \cup (IF ev.err /\ \A f \in Range(R.cur) : f \notin Range(ev.named) THEN {<<"C05", "error does not name a script of the group">>} ELSE {})
                  \cup (IF \E f \in Range(R.cur) : f \in DOMAIN S.hist /\ S.hist[f].ok /\ (f \notin DOMAIN R.hist0 \/ S.hist[f] # R.hist0[f])
                        THEN {<<"C05", "timed out but recorded as successful">>} ELSE {}))
            \cup
            (IF ~quiet \/ \A s \in Range(ev.sess) : s = S.sess THEN {} ELSE {<<"C05", "session lock timeout not restored">>})
      [] OTHER -> {}

Crashed(S, ev) ==
    IF ev.panic = "" THEN {}
    ELSE {<<CASE S.run.op = "ls" -> "C06" [] S.run.op \in {"touch", "rm", "mv"} -> "C07"
              [] S.run.lock # "" \/ S.run.attempt > 1 -> "C05" [] S.run.fail # "" -> "C03" [] OTHER -> "C01", "panic">>}

-----------------------------------------------------------------------------
Broken(S, ev) ==
    CASE ev.e = "cmd" -> {}
      [] ev.e = "exec" -> BrokenExec(S, ev)
      [] ev.e \in {"begin", "commit", "rollback"} -> BrokenTx(S, ev)
      [] ev.e = "fault" -> {}
      [] ev.e = "dur" -> BrokenDur(S, ev)
      [] ev.e = "end" -> BrokenEnd(S, ev) \cup Crashed(S, ev)

Step(S, ev) ==
    CASE ev.e = "cmd" -> [S EXCEPT !.run = Start(S, ev)]
      [] ev.e = "exec" -> StepExec(S, ev)
      [] ev.e \in {"begin", "commit", "rollback"} -> StepTx(S, ev)
      [] ev.e = "fault" -> StepFault(S, ev)
      [] ev.e = "dur" -> StepDur(S, ev)
      [] ev.e = "end" -> [S EXCEPT !.run = NoRun]
=============================================================================
