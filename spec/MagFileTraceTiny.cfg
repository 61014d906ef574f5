CONSTANTS
  NAdd <- FAdd
  NMul <- FMul
  NNeg <- FNeg
  NZero <- RZero
  NOne <- ROne
  UnitLimbs <- TinyUnit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
