SPECIFICATION Spec
INVARIANTS Journey Forward Exponentials Reasons Refusals
CHECK_DEADLOCK FALSE
