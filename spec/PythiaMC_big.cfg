SPECIFICATION Spec
CONSTANTS N = 3 A = 3
INVARIANTS Accepts Sound Perfect Complete Served
CHECK_DEADLOCK FALSE
