CONSTANTS
    MaxLen = 2
    MaxCols = 2
    MaxRows = 1
    Quoting = TRUE
SPECIFICATION Spec
INVARIANTS SameRows Reported SameShape
PROPERTY Ends
CHECK_DEADLOCK FALSE
