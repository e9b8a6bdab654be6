SPECIFICATION Spec
CONSTANTS Tries = 4 Scores = {0, 1, 2, 3}
INVARIANTS KeptIsBest FirstOfEqual NeverCollapsed Equivariant Accepts Rejects Perfect Bounded Roots PairOrder SlopesRight
CHECK_DEADLOCK FALSE
