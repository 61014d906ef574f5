CONSTANTS
  Pairs <- PairsFull
  Depth = 3
SPECIFICATION Spec
INVARIANTS SumsAdd Axis Levels Positive MeanSquare
CHECK_DEADLOCK FALSE
