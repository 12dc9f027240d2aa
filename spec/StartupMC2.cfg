CONSTANTS MaxConn = 2 MaxChanges = 1 MaxCalls = 0
INIT MCInit
NEXT MCNext
INVARIANT Expected
CONSTRAINT Small
CHECK_DEADLOCK FALSE
