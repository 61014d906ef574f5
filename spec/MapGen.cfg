CONSTANTS Depth = 2 Emit = TRUE Small = FALSE Toggles = FALSE
SPECIFICATION Spec
INVARIANTS Upright
CHECK_DEADLOCK FALSE
