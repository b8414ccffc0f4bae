INIT ScnInit
NEXT ScnNext
CHECK_DEADLOCK FALSE
