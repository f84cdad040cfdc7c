SPECIFICATION Spec
INVARIANTS Accepts EachOnce Rejects Laws
CHECK_DEADLOCK FALSE
