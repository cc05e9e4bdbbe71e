SPECIFICATION Spec
CONSTANTS
 N = 2
 Threads = 2
INVARIANTS Exact OneWriter Final
