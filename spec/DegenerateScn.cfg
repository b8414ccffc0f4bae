INIT ScnInit
NEXT ScnNext
CONSTANTS
  N = 3
  Y = {0, 1, 5}
  B = 2
CHECK_DEADLOCK FALSE
