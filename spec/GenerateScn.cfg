INIT ScnInit
NEXT ScnNext
CONSTANTS MaxP = 1 MaxK = 1
CHECK_DEADLOCK FALSE
