CONSTANTS
  NAdd <- FAdd
  NMul <- FMul
  NNeg <- FNeg
  NZero <- RZero
  NOne <- ROne
  Outs <- OutNames
  Lims <- LimsFull
  Depth = 3
  Emit = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS Agree SourcesKept RoundTrip Lost RowsReach KBounded
CHECK_DEADLOCK FALSE
