CONSTANTS
    Depth = 4
    Cols = {"c", "d"}
    Forget = TRUE
SPECIFICATION Spec
INVARIANTS Holds Finds Map
CHECK_DEADLOCK FALSE
VIEW View
