SPECIFICATION Spec
INVARIANT RefLaw
INVARIANT ByteLaw
INVARIANT BitsLaw
INVARIANT TimeLaw
CHECK_DEADLOCK FALSE
