CONSTANTS
    MaxRecs = 2
    Faults = {0, 1, 3, 4, 6, 7}
    AllOrders = FALSE
SPECIFICATION Spec
INVARIANTS NothingBroken Sorted Again Keyed Kept
PROPERTY Ends
CHECK_DEADLOCK FALSE
