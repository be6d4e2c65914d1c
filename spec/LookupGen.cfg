CONSTANT Depth = 3
INIT GInit
NEXT GNext
INVARIANT Write
CHECK_DEADLOCK FALSE
