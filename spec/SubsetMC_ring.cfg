CONSTANTS
    Slots <- Ring
    RowsOf = 2
SPECIFICATION Spec
INVARIANTS Minimal Complete Enough
CHECK_DEADLOCK FALSE
