SPECIFICATION Spec
CONSTANTS Slots = 2 MaxReps = 2 MaxOps = 6
INVARIANT Same
INVARIANT Fresh
