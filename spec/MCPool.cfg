SPECIFICATION MCSpec
CONSTANTS
 Bug = "none"
 Most = 3
 Threads = {0, 1, 2}
 Rounds = 1
CHECK_DEADLOCK FALSE
INVARIANTS OnceEach Divided Moves
PROPERTY OwnResult
