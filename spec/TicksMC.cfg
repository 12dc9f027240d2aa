SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANT Laws
PROPERTY FlagsOnly
CHECK_DEADLOCK FALSE
