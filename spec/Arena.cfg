SPECIFICATION ASpec
CONSTANTS P = 8 G = 2 N = 3 Sizes = {0, 1, 3, 5, 9}
CONSTRAINT Bound
INVARIANT Safe
CHECK_DEADLOCK FALSE
