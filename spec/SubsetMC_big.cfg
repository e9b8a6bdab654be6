SPECIFICATION Spec
CONSTANTS N = 4
L = 5
TOP = 6
INVARIANTS Done
PROPERTY Grows
CHECK_DEADLOCK FALSE
