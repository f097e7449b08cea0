INIT Init
NEXT Next
INVARIANTS Formulas Inverse Landmarks
CHECK_DEADLOCK FALSE
