INIT ScnInit
NEXT ScnNext
CONSTANTS N = 1 MaxCalls = 1
CHECK_DEADLOCK FALSE
