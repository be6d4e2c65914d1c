INIT GInit
NEXT GNext
INVARIANT Write
CHECK_DEADLOCK FALSE
