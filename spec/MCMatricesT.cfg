SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxMats = 3
INVARIANTS TwiceIsSame ElementsMove Neutral OneValue PrintAgree
PROPERTY OldKept
CHECK_DEADLOCK FALSE
