SPECIFICATION Spec
CONSTANTS
 MaxRows = 2
 MaxStmts = 3
 Signals = TRUE
INVARIANT FilterLaw
INVARIANT SignalLaw
CHECK_DEADLOCK FALSE
