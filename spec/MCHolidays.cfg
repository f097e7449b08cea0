SPECIFICATION Spec
INVARIANTS Astronomy NewYears Festivals YearLengths HebrewLaws
CHECK_DEADLOCK FALSE
