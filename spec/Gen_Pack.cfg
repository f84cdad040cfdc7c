INIT Init
NEXT Next
INVARIANT Emit
INVARIANT Law
CHECK_DEADLOCK FALSE
