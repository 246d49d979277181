SPECIFICATION Spec
CONSTANTS
  Workers = {1, 2}
  Shared = {"s"}
  Fresh = {"f"}
  Calls = 2
  Bug = "none"
INVARIANTS Exact OneWinner Refusals NoOverwrite
CHECK_DEADLOCK FALSE
