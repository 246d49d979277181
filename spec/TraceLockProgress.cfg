SPECIFICATION TSpec
CONSTANT Judge = "progress"
INVARIANT Exclusion
CHECK_DEADLOCK FALSE
