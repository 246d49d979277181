CONSTANTS Bug = "none"
          Depth = 1
SPECIFICATION Spec
INVARIANTS Exactly
