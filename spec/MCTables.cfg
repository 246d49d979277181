SPECIFICATION Spec
CONSTANTS
 Bug = "none"
 H = 3
 W = 2
 Cells = {"n1", "n2", "~"}
CHECK_DEADLOCK FALSE
INVARIANTS Turn Nulls Meaning Again Valued Split Repeat Smashed Squeezed Dedupe Join Maps
