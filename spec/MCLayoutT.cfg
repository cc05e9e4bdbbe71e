CONSTANTS
  MaxDim = 3
  MaxExt = 4
  MaxSize = 16
  MaxArr = 2
  MaxView = 2
  Marks = 2
SPECIFICATION Spec
INVARIANTS TypeOK Permutation NoAlias
PROPERTIES WriteLocal SourceUntouched
CHECK_DEADLOCK FALSE
