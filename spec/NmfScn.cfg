INIT ScnInit
NEXT ScnNext
CONSTANTS
  P = 2
  B = 2
  Labels = {0}
CHECK_DEADLOCK FALSE
