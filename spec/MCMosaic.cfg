SPECIFICATION Spec
CONSTANTS
 Bug = "none"
 MaxRows = 4
 Values = {0, 1, 2, 99}
 Chunks = {2, 3, 4}
CHECK_DEADLOCK FALSE
INVARIANTS SoFar Whole Pieces Reads
PROPERTY Finishes
