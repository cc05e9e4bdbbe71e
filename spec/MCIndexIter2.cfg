SPECIFICATION Spec
CONSTANTS
 Exts = {2, 3}
 Blocks = {1, 2}
 MaxLevels = 2
 Overlap = FALSE
INVARIANT Ordered
PROPERTY Allowed
