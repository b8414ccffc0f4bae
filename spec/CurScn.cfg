INIT ScnInit
NEXT ScnNext
CONSTANTS
  N = 2
  P = 2
  MaxB = 2
  W = {1, 2}
CHECK_DEADLOCK FALSE
