CONSTANTS
  Ins <- InsFull
  Outs <- OutsFull
  Modes = {"forward", "reverse", "none"}
  Depth = 1
  Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
