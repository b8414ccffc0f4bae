SPECIFICATION Spec
CONSTANTS N = 12 MaxCalls = 4
INVARIANTS Kept OwnState
PROPERTY NeverWritten
CHECK_DEADLOCK FALSE
