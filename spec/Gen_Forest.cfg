SPECIFICATION Spec
INVARIANT Emit
CONSTANTS MaxSplits = 2
 Pool = "wide"
CHECK_DEADLOCK FALSE
