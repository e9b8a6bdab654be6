SPECIFICATION Spec
CONSTANTS MaxOps = 4
INVARIANTS OwnFiles NeverItself Once LastZip
PROPERTIES ModelUnchanged Contained
CHECK_DEADLOCK FALSE
