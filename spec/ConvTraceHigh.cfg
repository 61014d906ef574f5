CONSTANTS
  NAdd <- FAdd
  NMul <- FMul
  NNeg <- FNeg
  NZero <- RZero
  NOne <- ROne
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT LTop <- HighTop
