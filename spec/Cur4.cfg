SPECIFICATION Spec
CONSTANTS
  N = 2
  P = 2
  MaxB = 3
  W = {1}
INVARIANTS Increasing Bracket Monotone Intersection
