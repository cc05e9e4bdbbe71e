SPECIFICATION Spec
INVARIANT Decides
CHECK_DEADLOCK FALSE
