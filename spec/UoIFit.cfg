SPECIFICATION Spec
CONSTANT MaxRanks = 3
INVARIANT Same AtMostOnce ExactlyOnce OneGenerator
PROPERTY Terminates
