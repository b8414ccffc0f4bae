SPECIFICATION Spec
CONSTANT MaxRanks = 4
INVARIANT Delivered
PROPERTY Terminates
