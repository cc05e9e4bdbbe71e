SPECIFICATION Spec
CONSTANTS
 Exts = {0, 2, 3}
 Blocks = {1, 2}
 MaxLevels = 1
 Overlap = TRUE
INVARIANT Ordered
PROPERTY Allowed
