SPECIFICATION GSpec
INVARIANTS Emit TypeOK Disjoint Findable
CHECK_DEADLOCK FALSE
