SPECIFICATION Spec
CONSTANTS
  Workers = {"w1", "w2"}
  Keys = {"a", "b"}
  Vals = {"keep", "v"}
  Calls = 2
  Bug = "none"
INVARIANTS Exact Truthful NeverStuck
PROPERTY ImplementsMap
CHECK_DEADLOCK FALSE
