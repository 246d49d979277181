SPECIFICATION MCSpec
CONSTANTS
  Pads = {"p"}
  Handles = {"h1", "h2"}
  Keys = {"a", "b", "index"}
  Vals = {"v0", "v1", "bad"}
VIEW view
INVARIANTS TypeOK IndexIsExact DeadIsEmpty
PROPERTIES FailedIsNoop Isolation
CHECK_DEADLOCK FALSE
