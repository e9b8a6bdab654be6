SPECIFICATION Spec
CONSTANTS N = 2 NF = 2 NA = 2 Forget = "s"
INVARIANTS AlwaysAligned
CHECK_DEADLOCK FALSE
