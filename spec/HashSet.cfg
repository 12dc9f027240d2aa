SPECIFICATION Spec
CONSTANT U = {1, 2, 3}
INVARIANTS TypeOK Laws
CHECK_DEADLOCK FALSE
