CONSTANTS
    MaxLen = 1
    MaxCols = 2
    MaxRows = 2
    Quoting = TRUE
SPECIFICATION Spec
INVARIANTS SameRows Reported SameShape
PROPERTY Ends
CHECK_DEADLOCK FALSE
