INIT ScnInit
NEXT ScnNext
CONSTANTS MaxN = 1 MaxQ = 1
CHECK_DEADLOCK FALSE
