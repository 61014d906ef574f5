CONSTANTS Depth = 3 Emit = FALSE Small = TRUE Toggles = FALSE
SPECIFICATION Spec
INVARIANTS Upright Covers Parted
PROPERTIES Frame
CHECK_DEADLOCK FALSE
