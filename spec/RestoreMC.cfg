CONSTANTS
    Last = TRUE
INIT MCInit
NEXT MCNext
INVARIANT Restored
CHECK_DEADLOCK FALSE
