SPECIFICATION Spec
CONSTANT Calls = {1, 2, 3}
INVARIANTS OncePerStart NoOverlap Refused
PROPERTIES AllRun CallsReturn
CHECK_DEADLOCK FALSE
