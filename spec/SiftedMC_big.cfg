SPECIFICATION Spec
CONSTANTS NR = 5
NF = 2
V = 1
NERR = 5
INVARIANTS Screened SignFree NeverNone NotTooMuch Drop Found
CHECK_DEADLOCK FALSE
