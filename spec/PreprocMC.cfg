SPECIFICATION Spec
CONSTANTS NR = 2 NF = 3 NA = 2
INVARIANTS OrderKept Exact NeverEmptyByWish
CHECK_DEADLOCK FALSE
