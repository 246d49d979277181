SPECIFICATION MCSpec
CONSTANTS
  Pads = {"p", "q"}
  Handles = {"h1", "h2"}
  Keys = {"a"}
  Vals = {"v0", "v1"}
VIEW view
INVARIANTS TypeOK IndexIsExact DeadIsEmpty
PROPERTIES FailedIsNoop Isolation
CHECK_DEADLOCK FALSE
