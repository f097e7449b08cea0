CONSTANT W = 7
INIT Init
NEXT Next
INVARIANTS RollsToOpen NearestOpen StaysInMonth Idempotent Counting Additive ByFormula
CHECK_DEADLOCK FALSE
