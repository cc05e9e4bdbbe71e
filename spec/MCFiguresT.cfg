SPECIFICATION Spec
CONSTANTS
 Algs = {"single", "looped", "combined", "kernel_tiled"}
 Sizes = {1, 2, 5}
 MaxReps = 4
 Costs = {1, 4, 7}
 Refs = {3, 40}
INVARIANTS TotalIsRun ReferenceApart RateIsWork CompleteAtEnd
PROPERTIES Ends
CHECK_DEADLOCK FALSE
