SPECIFICATION Spec
CONSTANTS MaxLen = 70
 Guarded = TRUE
INVARIANTS Bracketed InBounds
PROPERTY Terminates
