SPECIFICATION Spec
CONSTANTS
 MaxRows = 4
 MaxStmts = 1
 Signals = FALSE
INVARIANT FilterLaw
INVARIANT SignalLaw
CHECK_DEADLOCK FALSE
