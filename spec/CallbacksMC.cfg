CONSTANTS Gens = {0, 2, 3} MaxEvents = 3
INIT MCInit
NEXT MCNext
INVARIANT Sound
CHECK_DEADLOCK FALSE
