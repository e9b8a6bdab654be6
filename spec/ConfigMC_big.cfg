SPECIFICATION Spec
CONSTANTS MaxEntries = 4
INVARIANTS Verdict Kept OrderFree AliasesSound
CHECK_DEADLOCK FALSE
