SPECIFICATION MCSpec
CONSTANTS
  Procs = {"i1", "i2"}
  Names = {"a", "b"}
VIEW view
INVARIANT SemsOwned
PROPERTIES Survive OffIsClean
CHECK_DEADLOCK FALSE
