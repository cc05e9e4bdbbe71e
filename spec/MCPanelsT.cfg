SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxB = 4 MaxBlocks = 6
INVARIANT Exact
INVARIANT Once
INVARIANT Final
