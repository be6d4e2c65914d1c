CONSTANTS
    Slots <- Three
    RowsOf = 2
SPECIFICATION Spec
INVARIANTS Minimal Complete Enough
CHECK_DEADLOCK FALSE
