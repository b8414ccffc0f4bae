SPECIFICATION Spec
CONSTANT MaxRanks = 4
INVARIANT Same AtMostOnce ExactlyOnce OneGenerator
