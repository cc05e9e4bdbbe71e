SPECIFICATION Spec
CONSTANTS
 Sizes = {1, 2, 3}
 Devs = {1, 99999, 100000, 5000000}
 MaxReps = 2
INVARIANTS NothingElse HelpOnlyHelps StatusTells NoResultIfRefused VerdictRight
PROPERTIES Fits Ends
CHECK_DEADLOCK FALSE
