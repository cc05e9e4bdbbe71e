SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxB = 3 MaxBlocks = 4
INVARIANT Exact
INVARIANT Once
INVARIANT Final
