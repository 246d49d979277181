SPECIFICATION TSpec
CONSTANTS
 Bug = "none"
 Endings <- TheEndings
CHECK_DEADLOCK FALSE
