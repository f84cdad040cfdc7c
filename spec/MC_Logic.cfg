SPECIFICATION Spec
INVARIANTS Laws Short Presence Order
CHECK_DEADLOCK FALSE
