SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Data = {1, 2}
  Gens = {1}
  MaxOps = 3
  Boots = 2
  Regs = 2
INVARIANTS Functional OwnStart SeedDecides SplitsDiffer
PROPERTIES GlobalAlone Ends
CHECK_DEADLOCK FALSE
