SPECIFICATION Spec
CONSTANTS NCells = 4  NAlgos = 3
INVARIANTS NoGrowth Settled Keeps
PROPERTIES ThirdUnchanged ChangedIsCompared
CHECK_DEADLOCK FALSE
