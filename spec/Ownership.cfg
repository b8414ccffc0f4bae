SPECIFICATION Spec
CONSTANTS N = 9 MaxCalls = 3
INVARIANTS Kept OwnState
PROPERTY NeverWritten
CHECK_DEADLOCK FALSE
