SPECIFICATION Spec
CONSTANTS MaxN = 6
          MaxB = 5
INVARIANTS NoStray Clean
PROPERTY Ends
CHECK_DEADLOCK FALSE
