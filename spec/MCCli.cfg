SPECIFICATION Spec
CONSTANTS
 Sizes = {1, 2}
 Devs = {99999, 100000}
 MaxReps = 1
INVARIANTS NothingElse HelpOnlyHelps StatusTells NoResultIfRefused VerdictRight
PROPERTIES Fits Ends
CHECK_DEADLOCK FALSE
