SPECIFICATION Spec
CONSTANTS NStages = 2  NArgs = 2  MaxExec = 9  Mode = "named"
INVARIANTS Gating LatestValue NothingStale NoLeak IterationRuns
CHECK_DEADLOCK FALSE
