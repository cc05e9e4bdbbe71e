SPECIFICATION Spec
CONSTANTS Sizes = {1, 2, 3, 4, 6} MaxReps = 2 MaxTasks = 5 Nodes = 1 Fine = TRUE
INVARIANT Exact
INVARIANT Inside
INVARIANT Placed
INVARIANT Apart
INVARIANT Whole1
