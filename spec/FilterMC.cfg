SPECIFICATION Spec
CONSTANTS N = 4
XMAX = 2
YMAX = 1
MD2 = {0, 1}
INVARIANTS Same FirstKept CoverOk Mutual Settled
PROPERTY Monotone
CHECK_DEADLOCK FALSE
