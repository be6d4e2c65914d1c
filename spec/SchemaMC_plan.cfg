CONSTANTS
    Mode = "plan"
    Depth = 3
INIT MCInit
NEXT MCNext
INVARIANTS Delivered StaysSound UndoWorks
VIEW MCView
CHECK_DEADLOCK FALSE
