INIT Init
NEXT Next
INVARIANTS DayIn Adds Chains Carries Flowing Passes Told
CHECK_DEADLOCK FALSE
CONSTANTS
  Mode = "pairs"
  Long = 0
  Length = 2
