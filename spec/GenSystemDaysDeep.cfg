INIT Init
NEXT Next
INVARIANTS DayIn Adds Chains Carries Flowing Passes Told
CHECK_DEADLOCK FALSE
CONSTANTS
  Mode = "days"
  Long = 2
  Length = 3
