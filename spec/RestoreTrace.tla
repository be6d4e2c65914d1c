----------------------------- MODULE RestoreTrace -----------------------------
(* Replays recorded executions (one JSON object per line) through Restore.     *)
EXTENDS Restore, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, i, R

TInit == /\ k \in 1..Len(Traces)
         /\ i = 1
         /\ R = NoRestore

TNext ==
    /\ i <= Len(Traces[k].events)
    /\ LET ev == Traces[k].events[i]
           b == RestoreBroken(R, ev)
       IN  /\ IF b = {} THEN TRUE ELSE PrintT("BROKEN " \o ToString(<<k, i, b>>))
           /\ R' = RestoreStep(R, ev)
    /\ i' = i + 1
    /\ k' = k

TView == <<k, i>>
=============================================================================
