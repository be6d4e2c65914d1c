INIT MCInit
NEXT MCNext
INVARIANTS Done Undone Bites
CHECK_DEADLOCK FALSE
CONSTANTS
    D = "postgres"
    NT = 3
