CONSTANTS
    MaxRows = 3
    Dialects = {"sqlite", "postgres", "mysql", "sqlserver"}
SPECIFICATION Spec
INVARIANTS NothingBroken Idempotent AllSent
CHECK_DEADLOCK FALSE
