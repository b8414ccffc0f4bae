SPECIFICATION Spec
CONSTANTS
  P = 2
  Scales = {1, 2}
  Shifts = {0, 3}
INVARIANTS Follows Supports Composes
CHECK_DEADLOCK FALSE
