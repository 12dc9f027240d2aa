CONSTANTS Readers = {1, 2, 3}
 MaxMeas = 5
INIT MCInit
NEXT MCNext
INVARIANTS Kept Rising Once
CHECK_DEADLOCK FALSE
