SPECIFICATION Spec
CONSTANTS
 Exts = {3}
 Blocks = {1, 2, 3}
 MaxLevels = 2
 Overlap = FALSE
INVARIANT Ordered
PROPERTY Allowed
