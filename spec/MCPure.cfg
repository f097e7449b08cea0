INIT Init
NEXT Next
INVARIANTS Invisible Remembered
CHECK_DEADLOCK FALSE
CONSTANTS
  Users = {"u", "v"}
  Places = {"p"}
  Data = {"a", "b"}
  Args = {"1", "2"}
  Bounded = TRUE
