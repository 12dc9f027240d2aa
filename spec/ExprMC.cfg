SPECIFICATION Spec
CONSTANT MaxToks = 5
INVARIANT ParenInv
INVARIANT OneOpInv
INVARIANT ValueInv
INVARIANT PairInv
CHECK_DEADLOCK FALSE
