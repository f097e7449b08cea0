CONSTANT W = 10
INIT Init
NEXT Next
INVARIANTS RollsToOpen NearestOpen StaysInMonth Idempotent Counting Additive ByFormula
CHECK_DEADLOCK FALSE
