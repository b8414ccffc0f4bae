SPECIFICATION Spec
CONSTANTS MaxN = 60 MaxQ = 40
INVARIANTS InBounds RefusedUnfitted OnePerEntry IntegerPart
CHECK_DEADLOCK FALSE
