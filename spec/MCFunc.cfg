CONSTANTS Bug = "none"
          Depth = 2
SPECIFICATION Spec
INVARIANTS Once SafeOpt PassOn Stops Preempts PassNeutral SplatUnpacks
