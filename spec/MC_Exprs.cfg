SPECIFICATION Spec
CONSTANT MaxLen = 8
INVARIANTS Identity Rewriting Lowest
CHECK_DEADLOCK FALSE
