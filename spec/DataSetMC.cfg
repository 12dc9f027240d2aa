SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANT Laws
PROPERTY Isolated
CHECK_DEADLOCK FALSE
