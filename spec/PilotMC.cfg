SPECIFICATION Spec
CONSTANTS Tries = 3 Scores = {0, 1, 2}
INVARIANTS KeptIsBest FirstOfEqual NeverCollapsed Equivariant Accepts Rejects Perfect Bounded Roots PairOrder SlopesRight
CHECK_DEADLOCK FALSE
