SPECIFICATION Spec
CONSTANTS MaxP = 5 MaxK = 4
INVARIANTS Informative Shared Given ZeroIntercept FromReturned
CHECK_DEADLOCK FALSE
