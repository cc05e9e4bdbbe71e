SPECIFICATION Spec
CONSTANTS Sizes = {4} MaxReps = 1 MaxTasks = 21 Nodes = 1 Fine = FALSE
INVARIANT Exact
INVARIANT Inside
INVARIANT Placed
INVARIANT Apart
INVARIANT Whole1
