CONSTANTS Bug = "none"
SPECIFICATION TSpec
