SPECIFICATION TSpec
CONSTANTS
  Handles = {}
  Addresses = {}
INVARIANT TraceInv
PROPERTIES OneName FailIsNoop
CHECK_DEADLOCK FALSE
