SPECIFICATION Spec
CONSTANTS NStages = 2  NArgs = 2  MaxExec = 6  Mode = "small"
INVARIANTS Gating LatestValue NothingStale NoLeak IterationRuns
CHECK_DEADLOCK FALSE
