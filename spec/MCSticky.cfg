SPECIFICATION MCSpec
CONSTANTS
  Handles = {"h1", "h2"}
  Addresses = {"a", "b"}
  Vals = {"v0", "None", "bad"}
VIEW view
PROPERTIES OnlyStuckIsSeen OneAddressAtATime
CHECK_DEADLOCK FALSE
