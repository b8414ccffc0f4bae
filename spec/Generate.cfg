SPECIFICATION Spec
CONSTANTS MaxP = 4 MaxK = 3
INVARIANTS Informative Shared Given ZeroIntercept FromReturned
CHECK_DEADLOCK FALSE
