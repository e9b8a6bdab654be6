SPECIFICATION Spec
CONSTANTS N = 5  KMax = 3
INVARIANTS Correct Coarser Partition Monotone
CHECK_DEADLOCK FALSE
