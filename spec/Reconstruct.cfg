SPECIFICATION Spec
CONSTANTS
  Rows = {1, 2}
  MaxOps = 3
INVARIANTS Current RowWise
PROPERTIES RefusedKeeps ForgetsError
CHECK_DEADLOCK FALSE
