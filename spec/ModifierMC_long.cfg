CONSTANTS
    MaxLen = 6
    Level = 2
SPECIFICATION Spec
INVARIANTS Agrees Level0 Returns Parses Spaces
CHECK_DEADLOCK FALSE
