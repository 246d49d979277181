SPECIFICATION Spec
CONSTANTS
 Bug = "none"
 Endings <- TheEndings
 Pieces <- ThePieces
 N = 4
 Pads = {0, 2}
CHECK_DEADLOCK FALSE
INVARIANTS Right Stable Parts Shown
