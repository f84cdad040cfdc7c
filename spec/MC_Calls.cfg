INIT Init
NEXT Next
INVARIANT Laws
CONSTANT N = 2
CHECK_DEADLOCK FALSE
