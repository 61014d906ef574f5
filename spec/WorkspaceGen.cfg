CONSTANTS
  NAdd <- FAdd
  NMul <- FMul
  NNeg <- FNeg
  NZero <- RZero
  NOne <- ROne
  Outs <- OutNames
  Lims <- LimsFull
  Depth = 2
  Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
