SPECIFICATION Spec
CONSTANTS MaxEntries = 3
INVARIANTS Verdict Kept OrderFree AliasesSound
CHECK_DEADLOCK FALSE
