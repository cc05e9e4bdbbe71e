SPECIFICATION Spec
CONSTANTS MaxN = 8 MaxNodes = 3 MaxSplits = 3
INVARIANT Cover
INVARIANT Legal
INVARIANT EndsOrMoves
PROPERTY NeverWorse
