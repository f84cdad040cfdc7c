SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 6
 Broken = FALSE
CHECK_DEADLOCK FALSE
