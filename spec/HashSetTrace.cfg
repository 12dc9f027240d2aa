INIT TInit
NEXT TNext
CONSTANT U = {1}
CHECK_DEADLOCK FALSE
