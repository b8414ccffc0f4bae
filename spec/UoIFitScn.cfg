INIT ScnInit
NEXT ScnNext
CONSTANT MaxRanks = 1
CHECK_DEADLOCK FALSE
