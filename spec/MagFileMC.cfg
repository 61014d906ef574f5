CONSTANTS
  NAdd <- IAdd
  NMul <- IMul
  NNeg <- INeg
  NZero = 0
  NOne = 1
  Depth = 6
  RowPairs <- PairsFull
  Junk = {"blank"}
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS FailedOK Conserved GroupsDistinctStart WidthOK Missing
PROPERTIES JunkIgnored
CHECK_DEADLOCK FALSE
