SPECIFICATION TSpec
CONSTANTS
  Pads = {}
  Handles = {}
  Keys = {}
  Vals = {}
  Slots = {}
INVARIANT TraceInv
PROPERTIES FailedIsNoop CopiesStay
CHECK_DEADLOCK FALSE
