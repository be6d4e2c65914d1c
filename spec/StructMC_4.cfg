CONSTANTS
    MaxItems = 4
    MaxParts = 4
INIT Init
NEXT Next
INVARIANTS Restricted Unordered Described
CHECK_DEADLOCK FALSE
