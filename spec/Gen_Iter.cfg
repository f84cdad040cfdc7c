SPECIFICATION GSpec
INVARIANTS Emit
CHECK_DEADLOCK FALSE
