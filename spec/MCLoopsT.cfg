SPECIFICATION Spec
CONSTANTS
 MaxDim = 3
 Los = {-1, 1}
 His = {0, 2, 4}
 Sts = {1, 2}
INVARIANTS InOrder Inside Complete Numbering
PROPERTY Terminates
CHECK_DEADLOCK FALSE
