SPECIFICATION Spec
CONSTANTS Sizes = {2, 4} MaxReps = 1 MaxTasks = 5 Nodes = 3 Fine = TRUE
INVARIANT Exact
INVARIANT Inside
INVARIANT Placed
INVARIANT Apart
INVARIANT Whole1
