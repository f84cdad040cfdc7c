SPECIFICATION Spec
INVARIANT Inv
CONSTANTS N = 4
 Top = 1
CHECK_DEADLOCK FALSE
