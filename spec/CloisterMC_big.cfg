SPECIFICATION Spec
CONSTANTS NR = 3 V = 2 ALen = 4
INVARIANTS SameCover Instances Unique Inside Monotone Insignificant Opposite TightWithin
CHECK_DEADLOCK FALSE
