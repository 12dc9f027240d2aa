CONSTANT Watched <- AllKinds
INIT MCInit
NEXT MCNext
INVARIANT Ordered
INVARIANT Mapped
INVARIANT Complete
INVARIANT NeverBroken
CHECK_DEADLOCK FALSE
