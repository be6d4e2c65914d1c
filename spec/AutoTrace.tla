----------------------------- MODULE AutoTrace ------------------------------
(* Replays recorded executions (one JSON object per line) through Auto.       *)
EXTENDS Auto, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES k, i, S

TInit == /\ k \in 1..Len(Traces)
         /\ i = 1
         /\ S = None

TNext ==
    /\ i <= Len(Traces[k].events)
    /\ LET ev == Traces[k].events[i]
           b == Broken(S, ev)
       IN  /\ IF b = {} THEN TRUE ELSE PrintT("BROKEN " \o ToString(<<k, i, b>>))
           /\ S' = Step(S, ev)
    /\ i' = i + 1
    /\ k' = k

TView == <<k, i>>
=============================================================================
