SPECIFICATION Spec
CONSTANTS
 N = 3
 Threads = 3
INVARIANTS Exact OneWriter Final
