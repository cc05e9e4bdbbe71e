SPECIFICATION Spec
CONSTANTS
 MaxDim = 3
 MaxTile = 3
 MaxCount = 3
INVARIANTS SameOrder Complete SamePlace SameSize
CHECK_DEADLOCK FALSE
