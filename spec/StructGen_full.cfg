CONSTANTS
    MaxItems = 0
    MaxParts = 0
    Full = TRUE
INIT GInit
NEXT GNext
INVARIANT Written
CHECK_DEADLOCK FALSE
