SPECIFICATION Spec
CONSTANTS MaxN = 5
          MaxB = 3
INVARIANTS NoStray Clean
PROPERTY Ends
CHECK_DEADLOCK FALSE
