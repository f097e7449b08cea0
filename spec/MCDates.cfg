INIT Init
NEXT Next
INVARIANTS DaysAreSteps MonthsAreMonths YearsAreTwelveMonths Back
CHECK_DEADLOCK FALSE
