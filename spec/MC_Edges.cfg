SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxP = 2
 MaxC = 2
CHECK_DEADLOCK FALSE
