SPECIFICATION TSpec
INVARIANT Consistent
PROPERTIES Stable OthersValuesStay
CHECK_DEADLOCK FALSE
