CONSTANTS Depth = 1 Emit = FALSE Small = FALSE Toggles = FALSE
SPECIFICATION Spec
INVARIANTS Upright Covers Parted
PROPERTIES Frame
CHECK_DEADLOCK FALSE
