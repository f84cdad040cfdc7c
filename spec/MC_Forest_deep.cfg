SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxSplits = 3
 Pool = "few"
CHECK_DEADLOCK FALSE
