SPECIFICATION TSpec
CONSTANTS
  Pads = {}
  Handles = {}
  Keys = {}
  Vals = {}
INVARIANT TraceInv
PROPERTIES FailedIsNoop
CHECK_DEADLOCK FALSE
