SPECIFICATION Spec
INVARIANT Laws
PROPERTY Stable
CHECK_DEADLOCK FALSE
