INIT Init
NEXT Next
INVARIANTS Valid Category Stable Distinct
CHECK_DEADLOCK FALSE
