SPECIFICATION Spec
CONSTANTS NStages = 3  NArgs = 2  MaxPrec = 1
INVARIANTS Sound RefusedOnlyIfNeeded Progress
CHECK_DEADLOCK FALSE
