SPECIFICATION Spec
CONSTANTS
  N = 4
  Train = 3
  Boots = 2
  Tasks = 2
INVARIANTS Partition OneSplit
CHECK_DEADLOCK FALSE
