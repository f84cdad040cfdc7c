SPECIFICATION GSpec
INVARIANTS Places Emit
CHECK_DEADLOCK FALSE
