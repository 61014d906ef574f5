CONSTANTS Depth = 4 Emit = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
