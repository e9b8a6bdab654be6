SPECIFICATION Spec
CONSTANTS MaxCols = 3 NRows = 2
INVARIANTS Partition Ordered Values
CHECK_DEADLOCK FALSE
