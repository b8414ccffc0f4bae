SPECIFICATION Spec
CONSTANTS
  N = 2
  P = 2
  MaxB = 2
  W = {1, 2}
INVARIANTS Increasing Bracket Monotone Intersection
