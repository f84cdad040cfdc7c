SPECIFICATION Spec
INVARIANTS ShapeInv JoinInv
CONSTANTS MaxRank = 3
 MaxRow = 2
 MaxSize = 4
CHECK_DEADLOCK FALSE
