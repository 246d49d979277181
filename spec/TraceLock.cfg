SPECIFICATION TSpec
CONSTANT Judge = "exclusion"
INVARIANT Exclusion
CHECK_DEADLOCK FALSE
