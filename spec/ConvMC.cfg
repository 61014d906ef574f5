CONSTANTS
  NAdd <- FAdd
  NMul <- FMul
  NNeg <- FNeg
  NZero <- RZero
  NOne <- ROne
  L = 12
  Steps = 6
SPECIFICATION Spec
INVARIANTS OneField RoundTrip Vector
CHECK_DEADLOCK FALSE
