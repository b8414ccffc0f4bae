INIT ScnInit
NEXT ScnNext
CONSTANTS MaxIter = 3
          MaxTrials = 2
CHECK_DEADLOCK FALSE
