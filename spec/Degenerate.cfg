SPECIFICATION Spec
CONSTANTS
  N = 3
  Y = {0, 1, 5}
  B = 2
INVARIANTS NothingDrawn NullModel Shape EmptySupport
PROPERTIES Ends
