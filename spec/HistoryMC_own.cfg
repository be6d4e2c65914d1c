INIT MCInit
NEXT MCNext
CONSTANTS Slack = 1000
 D <- DSqlite
 Dir <- DirOwn
 MaxCmds = 2
 MaxEdits = 0
 MaxFaults = 1
INVARIANTS ExactlyOnce NoFalseSuccess Converged Predicts
CHECK_DEADLOCK FALSE
