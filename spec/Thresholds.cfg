SPECIFICATION Spec
CONSTANTS MaxN = 16 MaxQ = 12
INVARIANTS InBounds RefusedUnfitted OnePerEntry IntegerPart
CHECK_DEADLOCK FALSE
