SPECIFICATION Spec
CONSTANT MaxToks = 6
INVARIANT ParenInv
INVARIANT OneOpInv
INVARIANT ValueInv
INVARIANT PairInv
CHECK_DEADLOCK FALSE
