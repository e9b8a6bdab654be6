SPECIFICATION Spec
CONSTANTS N = 6  KMax = 3
INVARIANTS Correct Coarser Partition Monotone
CHECK_DEADLOCK FALSE
