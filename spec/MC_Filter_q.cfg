INIT Init
NEXT Next
INVARIANT Laws
CONSTANT Depth = 0
CHECK_DEADLOCK FALSE
