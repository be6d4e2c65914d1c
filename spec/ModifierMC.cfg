CONSTANTS
    MaxLen = 5
    Level = 1
SPECIFICATION Spec
INVARIANTS Agrees Level0 Returns Parses Spaces
PROPERTY Ends
CHECK_DEADLOCK FALSE
