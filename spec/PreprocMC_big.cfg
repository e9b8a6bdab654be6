SPECIFICATION Spec
CONSTANTS NR = 3 NF = 3 NA = 2
INVARIANTS OrderKept Exact NeverEmptyByWish
CHECK_DEADLOCK FALSE
