SPECIFICATION MCSpec
CONSTANTS
  Bug = "none"
  Most = 1
INVARIANTS Valid Numbered
PROPERTIES GrowOnly Apart
CHECK_DEADLOCK FALSE
