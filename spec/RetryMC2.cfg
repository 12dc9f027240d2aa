CONSTANT Horizon = 24
INIT MCInit
NEXT MCNext
INVARIANTS Bounded WaitInTime Doubles First
CHECK_DEADLOCK FALSE
