SPECIFICATION TSpec
CONSTANTS
  Procs = {}
  Names = {}
INVARIANT SemsOwned
CHECK_DEADLOCK FALSE
