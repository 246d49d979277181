SPECIFICATION Spec
CONSTANTS
 Bug = "none"
 LB = 4
 N = 70
 Length = 2
 Ms = {0, 1, 3, 5, 7}
 Es <- SomeExponents
CHECK_DEADLOCK FALSE
INVARIANTS Judge Ints Extremes Shown
