SPECIFICATION Spec
INVARIANTS NoArbitrage Refused AtZero Shift OverWhenPaid
CHECK_DEADLOCK FALSE
CONSTANT Deep = TRUE
