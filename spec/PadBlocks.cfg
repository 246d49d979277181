SPECIFICATION Spec
CONSTANTS
  Pads = {"p"}
  Handles = {"h1", "h2"}
  Keys = {"a", "b", "c"}
  Vals = {"v0", "v1", "bad"}
  Bug = "none"
INVARIANTS OneAddressOneBlock Gapless NothingLeft
PROPERTIES FailedLeavesBlocks Refines
CHECK_DEADLOCK FALSE
