SPECIFICATION Spec
INVARIANT Inv
PROPERTY Grows
CONSTANTS N = 6
 Big = FALSE
CHECK_DEADLOCK FALSE
