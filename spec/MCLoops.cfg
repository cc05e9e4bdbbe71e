SPECIFICATION Spec
CONSTANTS
 MaxDim = 2
 Los = {0, 2}
 His = {0, 1, 3, 5}
 Sts = {1, 2, 3}
INVARIANTS InOrder Inside Complete Numbering
PROPERTY Terminates
CHECK_DEADLOCK FALSE
