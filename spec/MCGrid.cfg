SPECIFICATION MCSpec
CONSTANTS
  Pads = {"p"}
  Handles = {"h1", "h2"}
  Keys = {"a", "b", "index"}
  Vals = {"v0", "v1", "bad"}
  Slots = {"s"}
VIEW gview
INVARIANTS TypeOK IndexIsExact DeadIsEmpty ViewsShow
PROPERTIES FailedIsNoop Isolation CopiesStay
CHECK_DEADLOCK FALSE
