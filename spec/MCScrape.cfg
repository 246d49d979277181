SPECIFICATION Spec
CONSTANTS
 Bug = "none"
 Alph = {"a", "1", "-", "'", ","}
 N = 5
 M = 0
 Files = {1}
 Pats <- ThePats
CHECK_DEADLOCK FALSE
INVARIANTS Memoised Earliest Faithful Shape Shown
