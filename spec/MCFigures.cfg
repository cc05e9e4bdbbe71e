SPECIFICATION Spec
CONSTANTS
 Algs = {"single", "looped", "combined", "kernel_tiled"}
 Sizes = {1, 3}
 MaxReps = 3
 Costs = {4, 7}
 Refs = {40}
INVARIANTS TotalIsRun ReferenceApart RateIsWork CompleteAtEnd
PROPERTIES Ends
CHECK_DEADLOCK FALSE
