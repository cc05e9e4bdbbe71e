CONSTANTS
  MaxDim = 3
  MaxExt = 3
  MaxSize = 9
  MaxArr = 2
  MaxView = 1
  Marks = 1
SPECIFICATION Spec
INVARIANTS TypeOK Permutation NoAlias
PROPERTIES WriteLocal SourceUntouched
CHECK_DEADLOCK FALSE
