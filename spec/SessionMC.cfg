INIT MInit
NEXT MNext
CONSTANTS Prop = "ALL"
 MaxCalls = 4
 MaxConns = 2
INVARIANTS Alternate OneAtATime NothingAfterClose RestIsRest NoUnwantedAttempt
CHECK_DEADLOCK FALSE
