SPECIFICATION GSpec
CONSTANTS MaxTasks = 4
 MaxPar = 3
INVARIANTS Emit
CHECK_DEADLOCK FALSE
