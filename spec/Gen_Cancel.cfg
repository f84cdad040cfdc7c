SPECIFICATION GSpec
INVARIANTS Emit NoEarlyCall HandleOwns
PROPERTIES Sticky Once
CHECK_DEADLOCK FALSE
