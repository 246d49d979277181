CONSTANTS Bug = "none"
          Most = 1
          Mode = "cycle"
SPECIFICATION MCSpec
INVARIANTS Flags LastLoaded
PROPERTIES Apart Settings Raised
