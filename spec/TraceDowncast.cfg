SPECIFICATION TSpec
CONSTANTS
 Bug = "none"
 LB = 12
CHECK_DEADLOCK FALSE
