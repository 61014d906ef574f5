CONSTANTS
  NAdd <- IAdd
  NMul <- IMul
  NNeg <- INeg
  NZero = 0
  NOne = 1
  MaxHandles = 3
  Depth = 3
  Ls = {0, 1}
  Vals = {1}
  Widths = {1, 2}
  OpNames = {"store", "badwidth"}
  Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
