SPECIFICATION Spec
CONSTANT MaxPoints = 4
INVARIANTS Accepted Spoilt Passes BuiltPasses Smooth1 Smooth2 Slopes1 Straight Within Range
CHECK_DEADLOCK FALSE
