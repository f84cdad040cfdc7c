INIT Init
NEXT Next
INVARIANT Laws
CONSTANT N = 3
CHECK_DEADLOCK FALSE
