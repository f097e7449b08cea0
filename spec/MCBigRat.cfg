INIT Init
NEXT Next
INVARIANTS Defined Canonical Laws Exp Landmarks
CHECK_DEADLOCK FALSE
