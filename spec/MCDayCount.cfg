INIT Init
NEXT Next
INVARIANTS Additive Sign Thirty
CHECK_DEADLOCK FALSE
