CONSTANTS
  Ins <- InsSmall
  Outs <- OutsSmall
  Modes = {"forward", "reverse"}
  Depth = 3
  Emit = FALSE
SPECIFICATION Spec
VIEW View
INVARIANTS StepsLegal NamedOnly DefaultSafe InputSafe OneInodeOneContent
CHECK_DEADLOCK FALSE
