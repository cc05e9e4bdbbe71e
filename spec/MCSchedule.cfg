SPECIFICATION Spec
CONSTANTS MaxN = 8 MaxNodes = 3 MaxSplits = 2
INVARIANT Cover
INVARIANT Legal
INVARIANT EndsOrMoves
PROPERTY NeverWorse
