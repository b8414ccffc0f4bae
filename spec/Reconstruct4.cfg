SPECIFICATION Spec
CONSTANTS
  Rows = {1, 2, 3}
  MaxOps = 4
INVARIANTS Current RowWise
PROPERTIES RefusedKeeps ForgetsError
CHECK_DEADLOCK FALSE
