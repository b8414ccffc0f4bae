SPECIFICATION Spec
INVARIANTS Count Monotone Extremes Shared OrderFree
CHECK_DEADLOCK FALSE
