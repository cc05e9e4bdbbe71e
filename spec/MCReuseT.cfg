SPECIFICATION Spec
CONSTANTS Slots = 3 MaxReps = 3 MaxOps = 8
INVARIANT Same
INVARIANT Fresh
