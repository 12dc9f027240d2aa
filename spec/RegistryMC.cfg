CONSTANTS Threads = {1, 2}
 Signals = {1, 2}
 MaxSteps = 5
INIT MCInit
NEXT MCNext
INVARIANTS Kept Apart
CHECK_DEADLOCK FALSE
