SPECIFICATION Spec
CONSTANTS Objs = {1, 2} H = 20 Gran = 2 MaxLen = 5 Aligns = {1, 2, 4, 8}
CONSTRAINT Bound
INVARIANT Disjoint
INVARIANT Owned
INVARIANT Apart
INVARIANT NoLeak
INVARIANT Once
