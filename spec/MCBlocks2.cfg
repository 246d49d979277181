SPECIFICATION MCSpec
CONSTANTS
  Handles = {"h1", "h2"}
  Addresses = {"a"}
VIEW view
INVARIANTS Distinct NoGarbage
PROPERTIES ViewsSurvive OneName FailIsNoop
CHECK_DEADLOCK FALSE
