SPECIFICATION Spec
INVARIANT Inv
PROPERTY Grows
CONSTANTS N = 7
 Big = TRUE
CHECK_DEADLOCK FALSE
