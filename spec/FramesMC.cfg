INIT MCInit
NEXT MCNext
CONSTANTS Writers = {1, 2, 3}
 PerWriter = 2
INVARIANTS NotMangled AllArrive
CHECK_DEADLOCK FALSE
