SPECIFICATION Spec
CONSTANTS MaxCols = 4 NRows = 2
INVARIANTS Partition Ordered Values
CHECK_DEADLOCK FALSE
