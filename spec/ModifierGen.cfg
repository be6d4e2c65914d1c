CONSTANTS
    MaxLen = 0
    Level = 1
INIT GInit
NEXT GNext
INVARIANT Write
CHECK_DEADLOCK FALSE
