INIT ScnInit
NEXT ScnNext
CONSTANTS
  Rows = {1, 2}
  MaxOps = 3
CHECK_DEADLOCK FALSE
