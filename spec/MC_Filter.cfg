INIT Init
NEXT Next
INVARIANT Laws
CONSTANT Depth = 1
CHECK_DEADLOCK FALSE
