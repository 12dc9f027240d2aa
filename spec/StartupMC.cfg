CONSTANTS MaxConn = 1 MaxChanges = 1 MaxCalls = 1
INIT MCInit
NEXT MCNext
INVARIANT Expected
CONSTRAINT Small
CHECK_DEADLOCK FALSE
