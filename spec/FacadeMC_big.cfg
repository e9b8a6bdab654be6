SPECIFICATION Spec
CONSTANTS MaxClock = 6
INVARIANTS ModelIsLastBuild Apart EveryFieldOnce
CHECK_DEADLOCK FALSE
