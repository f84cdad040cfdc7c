SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxSplits = 2
 Pool = "wide"
CHECK_DEADLOCK FALSE
