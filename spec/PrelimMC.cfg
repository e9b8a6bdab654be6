SPECIFICATION Spec
CONSTANTS NA = 3
VMAX = 4
NR = 5
XMAX = 3
INVARIANTS BestOk MissingNeverGood BestIsGood BetterIsGood LooserKeepsGood ScaleFree QuartOk ClipOk ClipStable
CHECK_DEADLOCK FALSE
