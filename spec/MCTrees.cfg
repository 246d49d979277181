CONSTANTS Bug = "none"
          Depth = 1
          Kds = {"dict", "od"}
          Lvs = {"1", "2"}
          Law = "one"
SPECIFICATION Spec
INVARIANTS DigTotals DigSplits DigLevelsFirst EditNones EditLeavesAll EditDeeps UnnestAlls MergeSames
