SPECIFICATION Spec
CONSTANTS
  B = 3
  S = 2
  V = 2
INVARIANTS Best MedianOk
CHECK_DEADLOCK FALSE
