CONSTANTS
    MaxLen = 4
    MaxCols = 1
    MaxRows = 1
    Quoting = TRUE
SPECIFICATION Spec
INVARIANTS SameRows Reported SameShape
PROPERTY Ends
CHECK_DEADLOCK FALSE
