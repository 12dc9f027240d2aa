SPECIFICATION Spec
CONSTANTS
 MaxRows = 3
 MaxStmts = 1
 Signals = FALSE
INVARIANT FilterLaw
INVARIANT SignalLaw
CHECK_DEADLOCK FALSE
