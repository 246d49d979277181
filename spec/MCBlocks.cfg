SPECIFICATION MCSpec
CONSTANTS
  Handles = {"h1"}
  Addresses = {"a", "b"}
VIEW view
INVARIANTS Distinct NoGarbage
PROPERTIES ViewsSurvive OneName FailIsNoop
CHECK_DEADLOCK FALSE
