INIT TraceInit
NEXT TraceNext
INVARIANTS Inv
CHECK_DEADLOCK FALSE
CONSTANT Schema <- SchemaIn
