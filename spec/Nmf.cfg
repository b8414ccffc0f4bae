SPECIFICATION Spec
CONSTANTS
  P = 2
  B = 2
  Labels = {0}
INVARIANTS OneMinimum Bounded Reproduced NoZero PerLabel Kept
