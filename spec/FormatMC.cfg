SPECIFICATION Spec
CONSTANT MaxLen = 9
INVARIANTS GroupOK FloatOK
CHECK_DEADLOCK FALSE
