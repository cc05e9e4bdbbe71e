SPECIFICATION Spec
CONSTANTS
 MaxObj = 3
INVARIANTS Faithful HeldOk
PROPERTY Stable
CHECK_DEADLOCK FALSE
