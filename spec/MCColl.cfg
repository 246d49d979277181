CONSTANTS Bug = "none"
SPECIFICATION Spec
INVARIANTS Equivalent Once
PROPERTIES Stays
