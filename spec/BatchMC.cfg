CONSTANTS
    MaxRows = 2
    Dialects = {"sqlite", "postgres", "mysql", "sqlserver"}
SPECIFICATION Spec
INVARIANTS NothingBroken Idempotent AllSent
PROPERTY Ends
CHECK_DEADLOCK FALSE
