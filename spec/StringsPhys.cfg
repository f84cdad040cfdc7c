SPECIFICATION Spec
CONSTANTS MaxLen = 3 MaxSteps = 4
INVARIANTS Within Denotes
CHECK_DEADLOCK FALSE
