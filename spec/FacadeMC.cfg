SPECIFICATION Spec
CONSTANTS MaxClock = 4
INVARIANTS ModelIsLastBuild Apart EveryFieldOnce
CHECK_DEADLOCK FALSE
