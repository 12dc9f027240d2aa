INIT Init
NEXT Next
INVARIANTS Typed Nulls Own Again Truth Graphs
CHECK_DEADLOCK FALSE
