SPECIFICATION Spec
INVARIANTS ClosedForm Schedule Additive AfterMaturity Amounts
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
