INIT MCInit
NEXT MCNext
INVARIANTS RowsSurvive NothingDropped Converged VirtualStays TriggerStays Ideal
CHECK_DEADLOCK FALSE
CONSTANTS
    MaxSteps = 2
    FK = TRUE
    Small = TRUE
