SPECIFICATION Spec
CONSTANTS
  N = 4
  Names = {1, 4, 9}
  Renamed = {2, 3, 5, 8}
INVARIANTS IndicesStay ClassesFollow PredictionsFollow RoundTrip Proper Reversed Permuted
CHECK_DEADLOCK FALSE
