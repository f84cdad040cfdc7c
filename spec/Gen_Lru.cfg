SPECIFICATION GSpec
INVARIANTS Emit Bounded Unique
PROPERTY KeepsLast
CHECK_DEADLOCK FALSE
