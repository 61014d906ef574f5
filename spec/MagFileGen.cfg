CONSTANTS
  NAdd <- IAdd
  NMul <- IMul
  NNeg <- INeg
  NZero = 0
  NOne = 1
  Depth = 4
  RowPairs <- PairsFull
  Junk <- JunkKinds
  Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
