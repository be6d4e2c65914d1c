CONSTANTS
    Depth = 3
    Cols = {"c", "d"}
    Forget = TRUE
SPECIFICATION Spec
INVARIANTS Holds Finds Map
CHECK_DEADLOCK FALSE
VIEW View
