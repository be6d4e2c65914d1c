CONSTANTS
    MaxLen = 0
    Level = 2
INIT GInit
NEXT GNext
INVARIANT Write
CHECK_DEADLOCK FALSE
