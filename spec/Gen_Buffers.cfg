SPECIFICATION GSpec
INVARIANT Emit
PROPERTY Stable
CHECK_DEADLOCK FALSE
