CONSTANTS
  NAdd <- IAdd
  NMul <- IMul
  NNeg <- INeg
  NZero = 0
  NOne = 1
  MaxHandles = 3
  Depth = 3
  Ls = {0, 1}
  Vals = {1, 2}
  Widths = {1, 2}
  OpNames = {"store", "copy", "add", "trunc", "hstack", "hsplit", "badwidth"}
  Emit = FALSE
SPECIFICATION Spec
INVARIANTS TypeOK ExtentsOK LookupOK Frame Laws
CHECK_DEADLOCK FALSE
