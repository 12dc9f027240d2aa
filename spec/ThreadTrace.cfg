INIT TInit
NEXT TNext
CONSTANT Calls <- TraceCalls
CHECK_DEADLOCK FALSE
