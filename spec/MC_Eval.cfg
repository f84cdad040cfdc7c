SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 5
 Broken = FALSE
CHECK_DEADLOCK FALSE
