SPECIFICATION Spec
CONSTANTS MaxTasks = 5
 MaxPar = 4
INVARIANTS OncePerTask Limit ReturnAfterAll
PROPERTY EventuallyReturns
