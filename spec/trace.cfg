SPECIFICATION Spec
INVARIANT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
