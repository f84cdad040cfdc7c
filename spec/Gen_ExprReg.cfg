SPECIFICATION GSpec
INVARIANTS Emit EOnce EValid EFix
CHECK_DEADLOCK FALSE
