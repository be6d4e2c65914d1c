CONSTANTS
    MaxItems = 3
    MaxParts = 3
INIT Init
NEXT Next
INVARIANTS Restricted Unordered Described
CHECK_DEADLOCK FALSE
