CONSTANTS
  Ins <- InsSmall
  Outs <- OutsSmall
  Modes = {"forward", "reverse"}
  Depth = 2
  Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
