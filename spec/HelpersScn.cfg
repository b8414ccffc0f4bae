INIT ScnInit
NEXT ScnNext
CONSTANT MaxRanks = 4
CHECK_DEADLOCK FALSE
