SPECIFICATION Spec
CONSTANTS NA = 3
VMAX = 8
NR = 6
XMAX = 5
INVARIANTS BestOk MissingNeverGood BestIsGood BetterIsGood LooserKeepsGood ScaleFree QuartOk ClipOk ClipStable
CHECK_DEADLOCK FALSE
