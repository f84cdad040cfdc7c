SPECIFICATION GSpec
INVARIANT Emit
INVARIANT Fresh
CHECK_DEADLOCK FALSE
