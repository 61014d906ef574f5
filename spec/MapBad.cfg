CONSTANTS Depth = 2 Emit = FALSE Small = TRUE Toggles = TRUE
SPECIFICATION Spec
INVARIANTS Upright 
CHECK_DEADLOCK FALSE
