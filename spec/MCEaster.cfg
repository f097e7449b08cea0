INIT Init
NEXT Next
INVARIANTS Counters Western Agree Bounds
CHECK_DEADLOCK FALSE
