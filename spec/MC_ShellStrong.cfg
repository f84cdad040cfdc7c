INIT Init
NEXT Next
INVARIANT Laws
CONSTANTS N = 5
Strong = TRUE
CHECK_DEADLOCK FALSE
