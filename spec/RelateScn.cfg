INIT ScnInit
NEXT ScnNext
CONSTANTS
  P = 2
  Scales = {1, 2}
  Shifts = {0, 3}
CHECK_DEADLOCK FALSE
