SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxE = 3
INVARIANT Exact
INVARIANT Partial
