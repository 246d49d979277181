SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b", "c"}
  Vals = {"v0", "v1"}
  Bug = "none"
VIEW view
INVARIANTS SlotsExact
PROPERTIES Refines
CHECK_DEADLOCK FALSE
