SPECIFICATION Spec
CONSTANTS
 N = 3
 Threads = 2
INVARIANTS Exact OneWriter Final
