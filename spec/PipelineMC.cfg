SPECIFICATION Spec
CONSTANTS N = 3 NF = 2 NA = 2 Forget = ""
INVARIANTS AlwaysAligned Ordered Inputs Complete
CHECK_DEADLOCK FALSE
