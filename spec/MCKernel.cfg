SPECIFICATION Spec
CONSTANTS MaxN = 4 MaxE = 2
INVARIANT Exact
INVARIANT Partial
