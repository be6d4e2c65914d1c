INIT MCInit
NEXT MCNext
CONSTANTS Slack = 1000
 D <- DSqlite
 Dir <- DirRep
 MaxCmds = 2
 MaxEdits = 1
 MaxFaults = 1
INVARIANTS ExactlyOnce NoFalseSuccess Converged Predicts
CHECK_DEADLOCK FALSE
