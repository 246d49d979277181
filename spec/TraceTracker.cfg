SPECIFICATION TSpec
CONSTANT Bug = "none"
CHECK_DEADLOCK FALSE
