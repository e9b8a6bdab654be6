SPECIFICATION Spec
CONSTANTS MaxOps = 6
INVARIANTS OwnFiles NeverItself Once LastZip
PROPERTIES ModelUnchanged Contained
CHECK_DEADLOCK FALSE
