SPECIFICATION Spec
CONSTANTS MaxIter = 4
          MaxTrials = 3
CONSTRAINT Bound
INVARIANTS Quiet Numbered Limited LimitOnly Alternates Reported Enough
PROPERTY Finished
CHECK_DEADLOCK FALSE
