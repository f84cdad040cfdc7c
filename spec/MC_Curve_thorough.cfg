SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 5
 Top = 2
CHECK_DEADLOCK FALSE
