INIT GInit
NEXT GNext
INVARIANTS Emit Laws
CHECK_DEADLOCK FALSE
