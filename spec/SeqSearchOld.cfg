SPECIFICATION Spec
CONSTANTS MaxLen = 70
 Guarded = FALSE
INVARIANTS InBounds
