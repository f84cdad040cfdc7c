SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxP = 2
 MaxC = 3
CHECK_DEADLOCK FALSE
