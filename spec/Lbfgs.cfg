SPECIFICATION Spec
CONSTANTS MaxIter = 3
          MaxTrials = 2
CONSTRAINT Bound
INVARIANTS Quiet Numbered Limited LimitOnly Alternates Reported Enough
PROPERTY Finished
CHECK_DEADLOCK FALSE
