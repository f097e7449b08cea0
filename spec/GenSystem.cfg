INIT Init
NEXT Next
INVARIANTS DayIn Adds Chains Carries Flowing Passes Told
CHECK_DEADLOCK FALSE
CONSTANTS
  Mode = "drawn"
  Long = 250
  Length = 40
