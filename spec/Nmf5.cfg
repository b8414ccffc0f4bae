SPECIFICATION Spec
CONSTANTS
  P = 1
  B = 3
  Labels = {0}
INVARIANTS OneMinimum Bounded Reproduced NoZero PerLabel Kept
