SPECIFICATION Spec
CONSTANTS
  N = 4
  Y = {0, 1, 5}
  B = 3
INVARIANTS NothingDrawn NullModel Shape EmptySupport
PROPERTIES Ends
