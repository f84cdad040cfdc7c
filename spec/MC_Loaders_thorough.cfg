SPECIFICATION Spec
INVARIANT Inv
CONSTANT Deep = TRUE
CHECK_DEADLOCK FALSE
