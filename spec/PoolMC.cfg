SPECIFICATION Spec
CONSTANTS NTasks = 3  NWorkers = 3
INVARIANTS SameOutcome OwnSlot Bounded
PROPERTY Ends
CHECK_DEADLOCK FALSE
