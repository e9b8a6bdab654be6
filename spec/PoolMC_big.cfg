SPECIFICATION Spec
CONSTANTS NTasks = 4  NWorkers = 4
INVARIANTS SameOutcome OwnSlot Bounded
CHECK_DEADLOCK FALSE
