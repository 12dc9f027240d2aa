INIT MCInit
NEXT MCNext
INVARIANTS SaysIt SaysNoOther
CHECK_DEADLOCK FALSE
