SPECIFICATION Spec
CONSTANT MaxPieces = 6
INVARIANT Laws
CHECK_DEADLOCK FALSE
