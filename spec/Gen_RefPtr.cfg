SPECIFICATION GSpec
INVARIANTS Emit Conserved Accounted
PROPERTY NeverResurrected
CHECK_DEADLOCK FALSE
