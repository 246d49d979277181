SPECIFICATION TSpec
CONSTANTS
  Handles = {}
  Addresses = {}
  Vals = {}
PROPERTIES OnlyStuckIsSeen OneAddressAtATime
CHECK_DEADLOCK FALSE
