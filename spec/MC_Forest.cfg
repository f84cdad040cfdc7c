SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxSplits = 2
 Pool = "few"
CHECK_DEADLOCK FALSE
