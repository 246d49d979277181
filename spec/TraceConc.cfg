SPECIFICATION TSpec
CONSTANTS
  Workers = {}
  Keys = {}
CHECK_DEADLOCK FALSE
