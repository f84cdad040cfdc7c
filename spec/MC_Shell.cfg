INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS N = 5
Strong = FALSE
CHECK_DEADLOCK FALSE
